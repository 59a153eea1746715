From 392245ab568501ac8ca8179e11080e040be97b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 001/178] fix: seed the Mersenne twister without signed integer
 overflow

---
 src/utils/random.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/random.cpp b/src/utils/random.cpp
index d008db7..6ffa293 100644
--- a/src/utils/random.cpp
+++ b/src/utils/random.cpp
@@ -22,7 +22,7 @@ namespace ts {
         this->m_i = 0;
         MT[0] = __seed;
         for (int i = 1; i < N; i++) {
-            MT[i] = 0x6c078965 * (MT[i - 1] ^ (MT[i - 1] >> 30)) + i;
+            MT[i] = int(0x6c078965u * (unsigned int)(MT[i - 1] ^ (MT[i - 1] >> 30)) + (unsigned int)(i));
             MT[i] &= 0xffffffff;   // get the last 32bits
         }
     }
@@ -35,8 +35,8 @@ namespace ts {
 
         int y = MT[i];
         y = y ^ (y >> 11);
-        y = y ^ ((y << 7) & 0x9d2c5680);
-        y = y ^ ((y << 15) & 0xefc60000);
+        y = y ^ int(((unsigned int)(y) << 7) & 0x9d2c5680u);
+        y = y ^ int(((unsigned int)(y) << 15) & 0xefc60000u);
         y = y ^ (y >> 18);
         this->m_i = (i + 1) % 624;
         return y;
-- 
2.43.0


From 3ddb8301772b6fa0dc7a9314901683e4a2abd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 002/178] fix: align operand ranks of equal before broadcasting

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From 189bb65f380ef0d809f7ff2d1f3a4f4908cd7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 003/178] fix: where keeps zero extents when broadcasting

---
 src/backend/base/base_where.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_where.cpp b/src/backend/base/base_where.cpp
index 493c7a5..d758341 100644
--- a/src/backend/base/base_where.cpp
+++ b/src/backend/base/base_where.cpp
@@ -58,7 +58,7 @@ namespace ts {
                                      << to_string(_rhs_shape) << eject;
                     }
                     do_broadcast = true;
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
+                    size = cond_shape[i] != 1 ? cond_shape[i] : (lhs_shape[i] != 1 ? lhs_shape[i] : rhs_shape[i]);
                 }
                 out_shape[i] = size;
             }
-- 
2.43.0


From 55eb635834bd81d11a6a3755fb7d6b5eb8234e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 004/178] fix: mod keeps operand order when the left side is
 broadcast

---
 src/kernels/cpu/mod.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..d6f103f 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,12 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            (void)(dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 46eb31831eb96dd7a46746ec49bb6f4344346653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 005/178] fix: mod does not trap on zero divisor

---
 src/kernels/cpu/mod.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index d6f103f..6700e95 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -5,6 +5,7 @@
 #include <global/operator_factory.h>
 #include <core/device.h>
 
+#include <limits>
 #include <numeric>
 
 #include "kernels/common/simd.h"
@@ -15,13 +16,15 @@
 
 namespace ts {
     namespace cpu {
+        // integer remainder traps on zero divisor and on lowest() % -1, both are defined as zero here
         template <typename T>
         inline void reduce_operator(T &x, T lhs, T rhs) {
-            x = lhs % rhs;
+            bool trap = rhs == T(0) || (std::numeric_limits<T>::is_signed && rhs == T(-1));
+            x = trap ? T(0) : T(lhs % rhs);
         }
         template <typename T>
         inline void reduce_operator(T &x, T y) {
-            x %= y;
+            reduce_operator(x, x, y);
         }
 
         static inline int to_mod_index(const HypeShape &hype, const Shape &coordinate) {
-- 
2.43.0


From dab756d144ff3adffc08c49efbb265b976f1d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 006/178] fix: softplus on float64 advances its input

---
 src/kernels/cpu/softplus.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/softplus.cpp b/src/kernels/cpu/softplus.cpp
index 2a4662a..e3a061e 100644
--- a/src/kernels/cpu/softplus.cpp
+++ b/src/kernels/cpu/softplus.cpp
@@ -22,6 +22,7 @@ namespace ts {
             for (int i = 0; i < counts; i++) {
                 T val = *input_data;
                 *output_data = std::log(std::exp(val) + 1.);
+                input_data++;
                 output_data++;
             }
         }
-- 
2.43.0


From 1bf4c33bbd1e839b74e3892424c7326603ecb1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 007/178] fix: l2_norm keeps the sign and epsilon of
 single-element dimensions

---
 src/kernels/cpu/l2_norm.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index b546c82..a2a7de7 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -32,13 +32,6 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
-            if (body_num == 1) {
-                T one(1);
-                memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-                       &one, Device(CPU), sizeof(T));
-                return;
-            }
-
             int head_num = 1;
             for (int i = 0; i < m_dim; i++) {
                 head_num *= output_shape[i];
-- 
2.43.0


From 01574bf165aa17b88fb7bac6a1258dba78dad010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 008/178] fix: depthwise 3x3 convolution stays inside its
 kernel and output

---
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..31b17d9 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -126,6 +128,11 @@ namespace ts {
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
             int w_start = padding.left == 0 ? 0 : padding.left;
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
+            // large paddings can leave no inner area, negative ones crop
+            h_start = std::min(std::max(h_start, 0), output_height);
+            h_end = std::min(h_end, output_height);
+            w_start = std::min(std::max(w_start, 0), output_width);
+            w_end = std::min(w_end, output_width);
             
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -150,7 +157,8 @@ namespace ts {
 //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    // the third row is loaded as four floats too: do not read behind the kernel
+                    float32x4 k2_x4(kernel_at[6], kernel_at[7], kernel_at[8], 0.f);
 //#endif
 
                     int h, w;
@@ -304,6 +312,11 @@ namespace ts {
             int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
             int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
             int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
+            // large paddings can leave no inner area, negative ones crop
+            h_start = std::min(std::max(h_start, 0), output_height);
+            h_end = std::min(h_end, output_height);
+            w_start = std::min(std::max(w_start, 0), output_width);
+            w_end = std::min(w_end, output_width);
 
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -324,7 +337,8 @@ namespace ts {
 
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    // the third row is loaded as four floats too: do not read behind the kernel
+                    float32x4 k2_x4(kernel_at[6], kernel_at[7], kernel_at[8], 0.f);
 
                     int h, w;
 
-- 
2.43.0


From 2a4e91f80017138156222b30525a81cfd52f1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 009/178] fix: compute packed gemm for types without simd
 kernel

---
 src/kernels/cpu/math_cpu.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..4f57baf 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,25 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            // A and B are packed by pack8_A and pack8_B: full groups of 8 are interleaved, remains are contiguous
+            const int M8 = (M >> 3) << 3;
+            const int N8 = (N >> 3) << 3;
+#ifdef TS_USE_OPENMP
+#pragma omp parallel for num_threads(openmp_threads())
+#endif
+            for (int m = 0; m < M; ++m) {
+                const T_IN *a = m < M8 ? A + (m & ~7) * K + (m & 7) : A + m * K;
+                const int a_inc = m < M8 ? 8 : 1;
+                for (int n = 0; n < N; ++n) {
+                    const T_IN *b = n < N8 ? B + (n & ~7) * K + (n & 7) : B + n * K;
+                    const int b_inc = n < N8 ? 8 : 1;
+                    T_OUT sum = 0;
+                    for (int k = 0; k < K; ++k) {
+                        sum += T_OUT(a[k * a_inc]) * T_OUT(b[k * b_inc]);
+                    }
+                    C[m * ldc + n] = sum;
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From dc4f7b887679bc1258916dfb03fecedb4d48bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 010/178] fix: conv2d_quantized dequantizes each channel into
 its own output

---
 src/kernels/cpu/quantized/conv2d_quantized_core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
index 2760bae..804a5a2 100644
--- a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
+++ b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
@@ -88,6 +88,7 @@ namespace ts {
 #endif
                 for (int c = 0; c < out_shape[1]; c++){
                     auto input_cur = input_data + n * num_offset + c * channal_offset;
+                    auto output_cur = poutput + n * num_offset + c * channal_offset;
                     float dequantize_scale = dequantize_scales[c];
                     float32x4x2 dequantize_scale_x4x2(dequantize_scale);
                     int count = channal_offset;
@@ -97,11 +98,10 @@ namespace ts {
                         int ii = i * 8;
                         float32x4x2 input_x4x2 = intx4x2_to_float32x4x2(int32x4x2(&input_cur[ii]));
                         float32x4x2 out_x4x2 = input_x4x2 * dequantize_scale_x4x2;
-                        out_x4x2.store(poutput);
-                        poutput += 8;
+                        out_x4x2.store(&output_cur[ii]);
                     }
                     for (int i = remain; i < count; i++){
-                        *poutput++ = input_cur[i] * dequantize_scale;
+                        output_cur[i] = input_cur[i] * dequantize_scale;
                     }
                 }
             }
-- 
2.43.0


From 668ca94d16062dca67e7dc0c4a79f99482353d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 011/178] fix: quantize saturates values out of the int32 range

---
 src/kernels/cpu/quantize.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/kernels/cpu/quantize.cpp b/src/kernels/cpu/quantize.cpp
index e35e5d4..1745605 100644
--- a/src/kernels/cpu/quantize.cpp
+++ b/src/kernels/cpu/quantize.cpp
@@ -21,18 +21,18 @@ namespace ts {
 
         template<>
         inline int8_t to_int8<float>(const float src) {
-            auto int32_temp = int32_t(round(src));
-            if (int32_temp > 127) return 127;
-            if (int32_temp < -128) return -128;
-            return static_cast<int8_t>(int32_temp);
+            auto rounded = round(src);
+            if (rounded > 127) return 127;
+            if (rounded < -128) return -128;
+            return static_cast<int8_t>(rounded);
         }
 
         template<>
         inline int8_t to_int8<double>(const double src) {
-            auto int32_temp = int32_t(round(src));
-            if (int32_temp > 127) return 127;
-            if (int32_temp < -128) return -128;
-            return static_cast<int8_t>(int32_temp);
+            auto rounded = round(src);
+            if (rounded > 127) return 127;
+            if (rounded < -128) return -128;
+            return static_cast<int8_t>(rounded);
         }
 
         template<typename T>
@@ -86,6 +86,11 @@ namespace ts {
                     int ii = i * 8;
                     float32x4x2 input_x4x2(&input_data[ii]);  
                     float32x4x2 output_x4x2 = input_x4x2 * scale_x4x2;
+                    // saturate before converting, values out of int32 have no int32 conversion
+                    float scaled[8];
+                    output_x4x2.store(scaled);
+                    for (auto &value : scaled) value = std::max(-128.f, std::min(127.f, value));
+                    output_x4x2 = float32x4x2(scaled);
                     int32x4x2 output_int_x4x2 = floatx4x2_to_int32x4x2(output_x4x2);
                     auto *output_int32x8 = (int32_t*)(void*)(&output_int_x4x2.value);
                     *(output_data + ii) = to_int8(output_int32x8[0]);
-- 
2.43.0


From e16d15a71c63488710238c4318872ff264508ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 012/178] fix: conv2d_winograd follows kernel changes and
 accepts pre-transformed kernels

---
 include/backend/base/base_conv2d_winograd.h |  3 +-
 src/backend/base/base_conv2d_winograd.cpp   | 45 +++++++++++++++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..c579072 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -33,7 +33,8 @@ namespace ts{
             Conv2DFormat m_format;
             std::valarray<int> m_padding4x2;
             float m_padding_value;
-            bool m_kernel_transformed;
+            bool m_kernel_transformed = false;
+            Tensor m_k_source;      ///< kernel which m_k_transformed was transformed from
             Tensor m_k_transformed;
         };
     }
diff --git a/src/backend/base/base_conv2d_winograd.cpp b/src/backend/base/base_conv2d_winograd.cpp
index bcc34b0..b8e8f80 100644
--- a/src/backend/base/base_conv2d_winograd.cpp
+++ b/src/backend/base/base_conv2d_winograd.cpp
@@ -10,6 +10,8 @@
 
 #include "kernels/common/function.h"
 
+#include <cstring>
+
 namespace ts {
     namespace base{
         Conv2DWinograd::Conv2DWinograd() {
@@ -85,6 +87,15 @@ namespace ts {
             TS_AUTO_CHECK(x_tensor.dims() == 4);
             TS_AUTO_CHECK(k_tensor.dims() == 4);
 
+            TS_AUTO_CHECK(x_tensor.dtype() == k_tensor.dtype());
+            TS_AUTO_CHECK(k_tensor.size(1) == x_tensor.size(1));
+            TS_AUTO_CHECK(k_tensor.size(2) == k_tensor.size(3));
+            if (m_kernel_transformed) {
+                TS_AUTO_CHECK(k_tensor.size(2) == 4 || k_tensor.size(2) == 8);
+            } else {
+                TS_AUTO_CHECK(k_tensor.size(2) == 3);
+            }
+
             Size2D x;
             //winograd conv2d only suppot ksize == 3x3 && stride == 1 && dialations == 1
             Size2D ksize(3, 3);
@@ -142,27 +153,37 @@ namespace ts {
                 padding = Padding2D(m_padding4x2[2], m_padding4x2[3], m_padding4x2[4], m_padding4x2[5]);
             }
 
-            //warm up
-            if(!m_kernel_transformed || m_k_transformed.empty()){
-                //select winograd mode
-                WinogradConv2DMode winograd_mode;
-                KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
-                m_winograd_mode = winograd_mode;
+            if (m_kernel_transformed) {
+                // the kernel was transformed by winograd_transform_kernel, its tile size tells the mode
+                auto mode = kernel_tensor.size(2) == 4 ? F2X2_3X3 : F6X6_3X3;
+                conv2d_winograd(x_tensor, mode, padding, m_padding_value, kernel_tensor, m_format, out, true);
+                return 1;
+            }
 
+            //select winograd mode
+            WinogradConv2DMode winograd_mode;
+            KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
+
+            //warm up, only do again if the mode or the kernel has changed
+            auto same_kernel = !m_k_transformed.empty()
+                               && m_winograd_mode == winograd_mode
+                               && m_k_source.proto() == kernel_tensor.proto()
+                               && std::memcmp(m_k_source.data(), kernel_tensor.data(),
+                                              size_t(kernel_tensor.count() * kernel_tensor.proto().type_bytes())) == 0;
+            if (!same_kernel) {
                 Shape kernel_shape = kernel_tensor.sizes();
-                Shape kernel_transformed_shape;
                 int in_tile_width = winograd_mode == F2X2_3X3 ? 4 : 8;
                 int in_tile_height = in_tile_width;
-                kernel_transformed_shape = {kernel_shape[0], kernel_shape[1], in_tile_height, in_tile_width };
+                Shape kernel_transformed_shape = {kernel_shape[0], kernel_shape[1], in_tile_height, in_tile_width };
                 m_k_transformed = Tensor(Tensor::InFlow::HOST, kernel_tensor.dtype(), kernel_transformed_shape);
 
-                conv2d_tranform_kernel(m_winograd_mode, kernel_tensor, m_k_transformed);
+                conv2d_tranform_kernel(winograd_mode, kernel_tensor, m_k_transformed);
 
-                m_kernel_transformed = true;
+                m_winograd_mode = winograd_mode;
+                m_k_source = kernel_tensor.clone();
             }
 
-            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, m_kernel_transformed);
-
+            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, true);
 
             return 1;
         }
-- 
2.43.0


From 4c182579fe754844292c9baf090aaf3753a2a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 013/178] fix: dcn_v2_forward checks the shapes of offset,
 mask, weight and bias

---
 src/backend/torch/base_dcn_v2_forward.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backend/torch/base_dcn_v2_forward.cpp b/src/backend/torch/base_dcn_v2_forward.cpp
index a5c97ed..12a268b 100644
--- a/src/backend/torch/base_dcn_v2_forward.cpp
+++ b/src/backend/torch/base_dcn_v2_forward.cpp
@@ -143,6 +143,16 @@ namespace ts {
 
             Size2D y = conv2d_forward(x, padding, ksize, stride, dialations);
 
+            if (m_format == FORMAT_NCHW) {
+                auto number = x_tensor.size(0);
+                auto samples = m_deformable_groups * ksize.height * ksize.width;
+                TS_AUTO_CHECK(m_deformable_groups > 0 && x_tensor.size(1) % m_deformable_groups == 0);
+                TS_AUTO_CHECK(w_tensor.size(1) == x_tensor.size(1));
+                TS_AUTO_CHECK(b_tensor.size(0) == w_tensor.size(0));
+                TS_AUTO_CHECK(offset_tensor.has_shape({number, 2 * samples, y.height, y.width}));
+                TS_AUTO_CHECK(mask_tensor.has_shape({number, samples, y.height, y.width}));
+            }
+
             Tensor::Prototype out_proto;
 
             if (m_format == FORMAT_NCHW) {
-- 
2.43.0


From 7a83e95d973c5b4dab0bcfc6215f8b6c3f5ac6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 014/178] fix: pooling2d handles double, windows without input
 and tiny inputs

---
 src/kernels/cpu/pooling2d_core.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..03faa32 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -17,13 +18,30 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        /**
+         * The specialised kernels treat the first and the last window of each axis apart,
+         * so those have to be different windows and each has to overlap the input.
+         */
+        static inline bool match_fast_pooling(int input, int output, int padding, int ksize) {
+            int tail = std::max(2 * (output - 1) + ksize - input, 0) - padding;
+            return input >= 2 && tail < ksize && output - (tail > 0 ? 1 : 0) >= padding;
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Tensor &x,
+                                                  const Tensor &out,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // specialised for float only
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
+            if (!match_fast_pooling(x.size(2), out.size(2), padding.top, ksize.height) ||
+                !match_fast_pooling(x.size(3), out.size(3), padding.left, ksize.width)) return pooling_kernel;
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -67,6 +85,11 @@ namespace ts {
                             ihStart = std::max<int>(ihStart, 0);
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
+                            if (ihStart >= ihEnd || iwStart >= iwEnd) {
+                                // no input in this window
+                                output_data[outIndex] = 0;
+                                continue;
+                            }
                             //T maxVlue = 0;
                             T maxVlue = input_data[ihStart * input_w + iwStart];
                             //int count = 0;
@@ -197,7 +220,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x, out, padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
-- 
2.43.0


From ce9cf70a708cbf60216d6ff610ec9c1e484f2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 015/178] fix: pad crops every axis of four-dimensional tensors
 within bounds

---
 src/kernels/cpu/pad2d_algorithm.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..ff39501 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -2,6 +2,7 @@
 #ifdef TS_USE_OPENMP
 #include <kernels/common/openmp.h>
 #endif
+#include <algorithm>
 #include <array>
 
 namespace ts{
@@ -32,13 +33,6 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
-            int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
-            dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
-            int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-            dim2 = padding[2][1] < 0 ? dim2 + padding[2][1] : dim2;
-            int tile = padding[3][0] < 0 ? input_tile + padding[3][0] : input_tile;
-            tile = padding[3][1] < 0 ? tile + padding[3][1] : tile;
-
             std::array<int,4> input_padding;
             std::array<int,4> output_padding;
 
@@ -51,9 +45,21 @@ namespace ts{
             output_padding[2] = padding[2][0] < 0 ? 0 : padding[2][0];
             output_padding[3] = padding[3][0] < 0 ? 0 : padding[3][0];
 
+            // number of elements in both the input and the output on each axis
+            std::array<int,4> copy_count;
+            for (int i = 0; i < 4; ++i) {
+                copy_count[i] = std::min(input_shape[i] - input_padding[i], output_shape[i] - output_padding[i]);
+            }
+            num = copy_count[0];
+            const int dim1 = copy_count[1];
+            const int dim2 = copy_count[2];
+            const int tile = copy_count[3];
+
             T value = T(padding_value);
             std::fill(out_ptr, out_ptr + out.count(), value);
 
+            if (tile <= 0) return;
+
             for (int n = 0; n < num; ++n) {
 #ifdef TS_USE_OPENMP
 #pragma omp parallel for num_threads(openmp_threads())
-- 
2.43.0


From 129f8a63611b4f7b006ca26c5fdd022257db192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 016/178] fix: dragon conv2d padding takes dilation into
 account

---
 src/backend/dragon/conv2d_padding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 99b3576..05205d7 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -172,7 +172,8 @@ namespace ts {
                                                            padding_method);
 
             Size2D expected_output_size(dynamic_output_size[0].out, dynamic_output_size[1].out);
-            Size2D expected_input_size = pooling2d_backward(expected_output_size, static_padding, ksize, stride);
+            Size2D expected_input_size = conv2d_backward(expected_output_size, static_padding, ksize, stride,
+                                                         dilation);
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-- 
2.43.0


From 6945788bcd9d404c1d1cba091c3f519036ac2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 017/178] fix: slicing a tensor checks its range

---
 src/core/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..5190d95 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -625,6 +625,7 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -635,6 +636,7 @@ namespace ts {
     Tensor Tensor::slice(int beg, int end) {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From f08338e656dabcf3e8ba52e48e3f66adaf253981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 018/178] fix: matmul checks the dimensions of its operands

---
 src/backend/base/base_matmul.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..781d5a3 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -33,16 +33,20 @@ namespace ts {
 
             auto dim4 = false;
             if (b.dims() == 4) {
+                TS_AUTO_CHECK(a.dims() == 4);
                 auto one = a.size(0) * a.size(1) * b.size(0) * b.size(1);
-                if (!one) {
+                if (one != 1) {
                     TS_LOG_ERROR << "Input of MatMal could be [1, 1, ?, k] and [1, 1, k, ?], but got "
                         << a.dims() << " " << b.dims() << eject;
                 }
                 dim4 = true;
                 a = a.reshape({a.size(2), a.size(3)});
                 b = b.reshape({b.size(2), b.size(3)});
-            } else if (b.dims() > 2) {
-                TS_LOG_ERROR << "Dimension of b in MatMal must less than 2, but got " << b.dims() << eject;
+            } else if (b.dims() != 2) {
+                TS_LOG_ERROR << "Dimension of b in MatMal must be 2, but got " << b.dims() << eject;
+            }
+            if (a.dims() < 1) {
+                TS_LOG_ERROR << "Input a of MatMal can not be scalar" << eject;
             }
 
             outputs.resize(1);
-- 
2.43.0


From aedfebce6703e961a7b5537a453e32f0981cdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 019/178] fix: LSTM runs in reverse direction when asked to

---
 src/backend/base/base_lstm.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index f17c063..607fe45 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -14,7 +14,13 @@ namespace ts {
 
             if (has("direction")) {
                 auto dir_str = tensor::to_string(get("direction"));
-                m_direction = dir_str == "bidirectional" ? 2 : 0;
+                if (dir_str == "bidirectional") {
+                    m_direction = 2;
+                } else if (dir_str == "reverse") {
+                    m_direction = 1;
+                } else {
+                    m_direction = 0;
+                }
             }
             if (has("hidden_size")) {
                 m_hidden_size = tensor::to_int(get("hidden_size"));
@@ -202,11 +208,11 @@ namespace ts {
                 auto init_c_forward = initial_c.slice(0);
                 lstm_compute(stack, x, w_forward, r_forward, b_forward, init_h_forward, init_c_forward, 0, vTensor_f);
             } else if (m_direction == 1) {
-                auto w_reverse = w.slice(1);
-                auto r_reverse = r.slice(1);
-                auto b_reverse = b.slice(1);
-                auto init_h_reverse = initial_h.slice(1);
-                auto init_c_reverse = initial_c.slice(1);
+                auto w_reverse = w.slice(0);
+                auto r_reverse = r.slice(0);
+                auto b_reverse = b.slice(0);
+                auto init_h_reverse = initial_h.slice(0);
+                auto init_c_reverse = initial_c.slice(0);
                 lstm_compute(stack, x, w_reverse, r_reverse, b_reverse, init_h_reverse, init_c_reverse, 1, vTensor_r);
             } else if (m_direction == 2) {
                 auto w_forward = w.slice(0);
-- 
2.43.0


From 0b878ce8c5a2c39d02768cfcbfdcf9c9bfb8cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 020/178] fix: reduce_mean accepts dims of any integer type and
 checks them after resolving negatives

---
 src/backend/base/base_reduce_mean.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..b8dc9ba 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -22,7 +22,7 @@ namespace ts {
             supper::init();
 
             m_dims.clear();
-            auto dims_tensor = this->get("dims");
+            auto dims_tensor = tensor::cast(INT32, this->get("dims"));
             int dims_dim = int(dims_tensor.dims());
             size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
             m_dims.resize(dims_count);
@@ -50,13 +50,7 @@ namespace ts {
             Shape input = stack[0].sizes();
             auto has_dims = int(input.size());
 
-            bool continue_flag = true;
-            if(dims.size() > 1){
-                continue_flag = check_dims_continue(dims);
-            }
-
-            if(!continue_flag)
-                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
+            TS_AUTO_CHECK(!dims.empty());
 
             std::vector<int> fixed_dims(dims);
             for (int i = 0; i < fixed_dims.size(); ++i) {
@@ -68,6 +62,9 @@ namespace ts {
                 }
             }
 
+            if(!check_dims_continue(fixed_dims))
+                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
+
             if(keep_dim){
                 for (int i = 0; i < fixed_dims.size(); ++i) {
                     input[fixed_dims[i]] = 1;
-- 
2.43.0


From 6b5e1313e70b413d150e1db59496f4f806f98999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 021/178] fix: argmax dispatches on the type of its input

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From 5644491a0b4118a1dea5758c92002b4af6ab64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 022/178] fix: topkv2 of a scalar returns a scalar index

---
 src/backend/base/base_topkv2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_topkv2.cpp b/src/backend/base/base_topkv2.cpp
index 91c9ff7..a39fced 100644
--- a/src/backend/base/base_topkv2.cpp
+++ b/src/backend/base/base_topkv2.cpp
@@ -46,7 +46,7 @@ namespace ts {
             if (x.dims() == 0) {
                 auto values = x;
                 int32_t i = 0;
-                auto indices = tensor::build(INT32, {}, &i);
+                auto indices = tensor::build(INT32, Shape(), &i);
                 stack.push(Tensor::Pack({values, indices}));
                 return 1;
             }
-- 
2.43.0


From 9aad40cb2d46659b5ba62ff5a86862940992d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 023/178] fix: otl::vector never stores more elements than its
 capacity

The capacity checks of the range constructor and insert were off, and
fill construction, resize, push_back and emplace_back had none, so a
shape of more than 7 extents overwrote the memory after it.
---
 include/utils/otl.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..230312f 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(S(_check_size(n))) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(S(_check_size(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(S(_check_size(size_type(n)))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,9 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
-                        TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
-                    }
+                    _check_size(n + 1);
                     m_buf[n] = *it;
                     ++n;
                 }
@@ -310,9 +308,7 @@ namespace ts {
 
             // initializer list
             vector(std::initializer_list<value_type> il) {
-                if (il.size() > CAPACITY) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(il.size())) << eject;
-                }
+                _check_size(il.size());
                 size_type n = 0;
                 for (auto it = il.begin(); it != il.end(); ++it) {
                     m_buf[n] = *it;
@@ -395,6 +391,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _check_size(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +402,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _check_size(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +414,13 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static size_type _check_size(size_type n) {
+                if (n > N) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return n;
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,9 +433,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_size(this->size() + 1);
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
                 m_buf[i] = val;
                 m_size += 1;
@@ -438,9 +441,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_size(this->size() + vec.size());
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
                 std::memcpy(m_buf + i, vec.data(), sizeof(T) * (vec.size()));
                 m_size += S(vec.size());
-- 
2.43.0


From 1394e6eb7b6eadf7b94285bac780c0d6831a01d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 024/178] fix: reshape rejects an inferred extent of an empty
 tensor and overflowing counts

A -1 next to a zero extent divided by zero; the product of the requested
extents could overflow.
---
 src/backend/base/base_reshape.cpp    | 8 ++++++--
 src/backend/base/base_reshape_v2.cpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_reshape.cpp b/src/backend/base/base_reshape.cpp
index b01f186..ff65c0f 100644
--- a/src/backend/base/base_reshape.cpp
+++ b/src/backend/base/base_reshape.cpp
@@ -36,6 +36,7 @@ namespace ts {
             for (size_t i = 0; i < count; ++i) {
                 if (m_shape[i] == 0) continue;
                 if (m_shape[i] > 0) {
+                    TS_AUTO_CHECK(int64_t(m_count_without_dim) * m_shape[i] <= INT32_MAX);
                     m_count_without_dim *= m_shape[i];
                     continue;
                 }
@@ -48,7 +49,7 @@ namespace ts {
             auto x_count = x.count();
 
             auto shape = m_shape;
-            decltype(m_count_without_dim) running_count = 1;
+            int64_t running_count = 1;
             for (size_t i = 0; i < shape.size(); ++i) {
                 if (shape[i] == 0) {
                     if (i >= x.dims()) {
@@ -61,7 +62,10 @@ namespace ts {
 
             if (m_broadcast_dim >= 0) {
                 running_count *= m_count_without_dim;
-                shape[m_broadcast_dim] = x_count / running_count;
+                if (running_count == 0) {
+                    TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
+                }
+                shape[m_broadcast_dim] = int(x_count / running_count);
                 if (shape[m_broadcast_dim] * running_count != x_count) {
                     TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
                 }
diff --git a/src/backend/base/base_reshape_v2.cpp b/src/backend/base/base_reshape_v2.cpp
index 4b5df09..97b90a8 100644
--- a/src/backend/base/base_reshape_v2.cpp
+++ b/src/backend/base/base_reshape_v2.cpp
@@ -33,6 +33,7 @@ namespace ts {
             for (size_t i = 0; i < count; ++i) {
                 if (m_shape[i] == 0)  TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
                 if (m_shape[i] > 0) {
+                    TS_AUTO_CHECK(int64_t(m_count_without_dim) * m_shape[i] <= INT32_MAX);
                     m_count_without_dim *= m_shape[i];
                     continue;
                 }
-- 
2.43.0


From 12b4302df43375df424a02c75f3494f06c1f5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 025/178] fix: transpose without permutation swaps the last two
 dimensions

The swap assigned the last dimension to both places.
---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From 189c839e007991d9c12640efe39a298f24c56ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 026/178] fix: dimshuffle checks its dimension before using it

---
 src/backend/base/base_dimshuffle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_dimshuffle.cpp b/src/backend/base/base_dimshuffle.cpp
index 7a9d5dd..16b8882 100644
--- a/src/backend/base/base_dimshuffle.cpp
+++ b/src/backend/base/base_dimshuffle.cpp
@@ -42,10 +42,10 @@ namespace ts {
             TS_AUTO_CHECK(input_num == 1);
 
             auto x = stack[0];
-            auto dim_size = x.size(m_dim);
-
             TS_AUTO_CHECK(m_dim < x.dims());
 
+            auto dim_size = x.size(m_dim);
+
             for (auto &i : m_shuffle) {
                 if (i >= dim_size) {
                     TS_LOG_ERROR << "Unsupported x.shape = " << to_string(x.sizes())
-- 
2.43.0


From 11045737d4d55df75c1017dd5118ba2cf08bed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 027/178] fix: chunk does not read past its parts when the
 extent gives fewer of them

With parts of ceil(extent / chunks) an extent of 6 has only 3 parts for 4
or 5 chunks.
---
 src/backend/base/base_chunk.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..ed5c258 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -46,9 +46,9 @@ namespace ts {
 
             auto bins = split_bins(0, dim_size, m_chunks);
 
-            output.resize(m_chunks);
+            output.resize(bins.size());
 
-            for (int i = 0; i < m_chunks; ++i) {
+            for (size_t i = 0; i < bins.size(); ++i) {
                 DTYPE proto_dtype = x.dtype();
                 Shape proto_shape = x.sizes();
                 proto_shape[fixed_dim] = bins[i].second - bins[i].first;
@@ -60,7 +60,7 @@ namespace ts {
 
         int Chunk::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             infer_return_dim(stack, m_chunks, m_dim, output);
-            return m_chunks;
+            return int(output.size());
         }
 
         int Chunk::run(Stack &stack) {
-- 
2.43.0


From af93346202b77cba04b418f55773b6e29b081a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 028/178] fix: split checks that its sizes cover the extent

Negative sizes and sizes exceeding the extent read outside the input.
---
 src/backend/base/base_split.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..46d722d 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -26,6 +26,13 @@ namespace ts {
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
             std::vector<Tensor::Prototype> shapes;
+            int64_t total = 0;
+            for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0);
+                total += size;
+            }
+            TS_AUTO_CHECK(total == x_shape[dim]);
+
             for (auto size : split) {
                 auto shape = x_shape;
                 shape[dim] = size;
-- 
2.43.0


From d4bb384b530159784336acc819e85384a2bc9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 029/178] fix: slice checks its size without overflowing

---
 src/backend/base/base_slice.cpp    | 2 +-
 src/backend/base/base_slice_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_slice.cpp b/src/backend/base/base_slice.cpp
index ce24cf2..d88424d 100644
--- a/src/backend/base/base_slice.cpp
+++ b/src/backend/base/base_slice.cpp
@@ -56,7 +56,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
diff --git a/src/backend/base/base_slice_v2.cpp b/src/backend/base/base_slice_v2.cpp
index a46f73b..1795189 100644
--- a/src/backend/base/base_slice_v2.cpp
+++ b/src/backend/base/base_slice_v2.cpp
@@ -33,7 +33,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
-- 
2.43.0


From 923152bfd0231eee94190052d52fbb935e164181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 030/178] fix: space_to_batch4d and batch_to_space4d reject
 negative paddings and crops

They were used as offsets outside the tensors; crops larger than the
image gave negative extents.
---
 src/backend/base/base_batchtospace4d.cpp | 2 ++
 src/backend/base/base_spacetobatch4d.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/backend/base/base_batchtospace4d.cpp b/src/backend/base/base_batchtospace4d.cpp
index df885e9..f271c68 100644
--- a/src/backend/base/base_batchtospace4d.cpp
+++ b/src/backend/base/base_batchtospace4d.cpp
@@ -46,6 +46,7 @@ namespace ts {
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
             m_block_shape[1] = block_shape_tensor.data<int32_t>(1);
             TS_AUTO_CHECK((m_block_shape[0] >= 1) && (m_block_shape[1] >= 1));
+            TS_AUTO_CHECK(m_crop[0] >= 0 && m_crop[1] >= 0 && m_crop[2] >= 0 && m_crop[3] >= 0);
         }
 
         int BatchToSpace4D::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
@@ -59,6 +60,7 @@ namespace ts {
             Shape output_shape;
             output_shape.resize(4);
             CaculateOutputSize(input_shape, output_shape,m_block_shape[0],m_block_shape[1],m_crop[0],m_crop[1],m_crop[2],m_crop[3]);
+            TS_AUTO_CHECK(output_shape[2] >= 0 && output_shape[3] >= 0);
 
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), output_shape);
diff --git a/src/backend/base/base_spacetobatch4d.cpp b/src/backend/base/base_spacetobatch4d.cpp
index 19bbcc7..a36f519 100644
--- a/src/backend/base/base_spacetobatch4d.cpp
+++ b/src/backend/base/base_spacetobatch4d.cpp
@@ -45,6 +45,7 @@ namespace ts {
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
             m_block_shape[1] = block_shape_tensor.data<int32_t>(1);
             TS_AUTO_CHECK((m_block_shape[0] >= 1) && (m_block_shape[1] >= 1));
+            TS_AUTO_CHECK(m_padding[0] >= 0 && m_padding[1] >= 0 && m_padding[2] >= 0 && m_padding[3] >= 0);
         }
 
         int SpaceToBatch4D::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-- 
2.43.0


From f1f4bd2008dd8695a21ac2fa47857638c8b338eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 031/178] fix: gather checks its indices and no longer
 normalises them inside the caller's tensor

---
 src/backend/base/base_gather.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..3a0c2fd 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,25 +54,26 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            // clone, because the indices may be normalized in place
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+
             auto& indices_viewed = indices;
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < indices_viewed.count(); ++i) {
-
-                indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
-                                                    indices_viewed.data<int32_t>()[i];
+                auto &index = indices_viewed.data<int32_t>()[i];
+                TS_AUTO_CHECK(index >= -indices_limit && index < indices_limit);
+                if (index < 0) index += indices_limit;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
-- 
2.43.0


From e612745b7e9bf369bb24b6ca0acf4d67a09d1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 032/178] fix: gather_elements selects with every index and
 checks axis, shape and index range

---
 src/backend/base/base_gather_elements.cpp | 17 +++--
 src/kernels/cpu/gather_elements.cpp       | 86 ++++++++---------------
 2 files changed, 44 insertions(+), 59 deletions(-)

diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..ce4262e 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -24,6 +24,13 @@ namespace ts {
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
 
+            if (axis < 0) axis += dims;
+
+            TS_AUTO_CHECK(indices.dims() == x.dims());
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == axis || indices.size(i) <= x.size(i));
+            }
+
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
 
@@ -42,26 +49,28 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            // clone, because the indices may be normalized in place
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+
             auto& indices_viewed = indices;
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
+                TS_AUTO_CHECK(v >= -indices_limit && v < indices_limit);
                 indices_data[i] = v < 0 ? v + indices_limit : v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..2edeeef 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -7,7 +7,6 @@
 #include "global/operator_factory.h"
 #include "backend/name.h"
 
-#include <numeric>
 
 namespace ts {
     namespace cpu {
@@ -20,38 +19,37 @@ namespace ts {
             void gather_cpu(const Tensor &x, const Tensor &indices, int axis, Tensor &out);
         };
 
-        template <typename T>
-        void compute_run(const Tensor &x, const Tensor &indices, int axis, Tensor &out) {
-            auto &x_shape = x.sizes();
-            auto number = std::accumulate(x_shape.begin(), x_shape.begin() + axis, 1,
-                                          std::multiplies<int>());
-            auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1,
-                                         std::multiplies<int>());
-
-            HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+        /**
+         * indices may be smaller than x on each axis, so walk through every coordinate of indices.
+         * @param x
+         * @param indices same shape with output
+         * @param axis axis of x, which will be selected by indices
+         * @param copy function call as copy(out_index, x_index)
+         */
+        template <typename FUNC>
+        static void for_each_element(const Tensor &x, const Tensor &indices, int axis, FUNC copy) {
+            HypeShape x_hype(x.sizes());
+            ShapeIterator it(indices.sizes());
 
-            auto x_data = x.data<T>();
-            auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
+            auto count = indices.count();
 
-            std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
-
-            for (int n = 0; n < number; ++n) {
-                norm_out_coord[0] = n;
-                norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
+            for (int i = 0; i < count; ++i) {
+                auto coord = it.coordinate();
+                coord[axis] = indices_data[i];
+                copy(i, x_hype.to_index(coord));
+                ++it;
+            }
+        }
 
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
+        template <typename T>
+        void compute_run(const Tensor &x, const Tensor &indices, int axis, Tensor &out) {
+            auto x_data = x.data<T>();
+            auto out_data = out.data<T>();
 
-                    out_data[out_index] = x_data[x_index];
-                }
-            }
+            for_each_element(x, indices, axis, [&](int out_index, int x_index) {
+                out_data[out_index] = x_data[x_index];
+            });
         }
 
         void GatherElements::gather_cpu(const Tensor &x, const Tensor &indices, int axis, Tensor &out) {
@@ -86,38 +84,16 @@ namespace ts {
             TS_AUTO_CHECK(memcpy_handler != nullptr);
             auto device_id = out.device().id();
 
-            auto &x_shape = x.sizes();
-            auto number = std::accumulate(x_shape.begin(), x_shape.begin() + axis, 1, std::multiplies<int>());
-            auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
-
-            HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
-
             auto bytes = x.proto().type_bytes();
 
             auto x_data = x.data<char>();
             auto out_data = out.data<char>();
-            auto indices_data = indices.data<int32_t>();
 
-            std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
-
-            for (int n = 0; n < number; ++n) {
-                norm_out_coord[0] = n;
-                norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
-                }
-            }
+            for_each_element(x, indices, axis, [&](int out_index, int x_index) {
+                auto src_ptr = x_data + x_index * bytes;
+                auto dst_ptr = out_data + out_index * bytes;
+                memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+            });
         }
     }
 }
-- 
2.43.0


From 38ad406ec41c21b05599cca81e9a133548dcc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 033/178] fix: gatherv2 rejects indices outside of its input

---
 src/backend/base/base_gatherv2.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_gatherv2.cpp b/src/backend/base/base_gatherv2.cpp
index 7ea6f3b..765d160 100644
--- a/src/backend/base/base_gatherv2.cpp
+++ b/src/backend/base/base_gatherv2.cpp
@@ -54,10 +54,18 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto indices = tensor::cast(INT32, stack[1]).view(memory_device);
+            auto indices = tensor::cast(INT32, stack[1]);
             TS_AUTO_CHECK(indices.dtype() == INT32);
             auto output_proto = infer_gather(stack[0], indices);
 
+            // each index must be inside of x
+            auto depth = indices.size(int(indices.dims()) - 1);
+            auto indices_data = indices.data<int32_t>();
+            for (int i = 0; i < indices.count(); ++i) {
+                TS_AUTO_CHECK(indices_data[i] >= 0 && indices_data[i] < x.size(i % depth));
+            }
+            indices = indices.view(memory_device);
+
             auto &out = *stack.push(output_proto, memory_device);
 
             gather(x, indices, out);
-- 
2.43.0


From 236679dff8cb868d2f6b88b4f67dc523a4829c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 034/178] fix: scatter_nd rejects indices and updates that do
 not fit its data

---
 src/backend/base/base_scatter_nd.cpp | 16 ++++++++++++++++
 src/kernels/cpu/scatter_nd.cpp       | 12 ++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/backend/base/base_scatter_nd.cpp b/src/backend/base/base_scatter_nd.cpp
index e9a82ba..f40286e 100644
--- a/src/backend/base/base_scatter_nd.cpp
+++ b/src/backend/base/base_scatter_nd.cpp
@@ -3,7 +3,23 @@
 namespace ts {
     namespace base {
         int ScatterND::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
+            TS_AUTO_CHECK(stack.size() == 3);
+
             auto &data = stack[0];
+            auto &indices = stack[1];
+            auto &updates = stack[2];
+
+            // only support indexing the first dimension, indices in shape [n] or [n, 1]
+            TS_AUTO_CHECK(data.dims() >= 1);
+            TS_AUTO_CHECK(indices.dims() == 1 || (indices.dims() == 2 && indices.size(1) == 1));
+
+            // updates must be n slices of data
+            TS_AUTO_CHECK(updates.dims() == data.dims());
+            TS_AUTO_CHECK(updates.size(0) == indices.size(0));
+            for (int i = 1; i < int(data.dims()); ++i) {
+                TS_AUTO_CHECK(updates.size(i) == data.size(i));
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(data.dtype(), data.sizes());
             return 1;
diff --git a/src/kernels/cpu/scatter_nd.cpp b/src/kernels/cpu/scatter_nd.cpp
index 5dad31a..646334d 100644
--- a/src/kernels/cpu/scatter_nd.cpp
+++ b/src/kernels/cpu/scatter_nd.cpp
@@ -10,12 +10,16 @@ namespace ts {
 
             std::memcpy(out.data(), data.data(), data.count() * bytes);
 
-            auto update_indices = indices.sizes();
+            auto rows = data.size(0);
+            if (rows <= 0) {
+                TS_AUTO_CHECK(indices.count() == 0);
+                return;
+            }
+            auto block = data.count() / rows * bytes;
 
-            for (int i = 0; i < update_indices[0]; ++i) {
-                int offset = updates.slice(i).count();
-                auto block = offset * bytes;
+            for (int i = 0; i < indices.size(0); ++i) {
                 int out_idx = indices.data<int>(i);
+                TS_AUTO_CHECK(out_idx >= 0 && out_idx < rows);
                 std::memcpy(out.data<uint8_t>() + out_idx * block,
                             updates.data<uint8_t>() + i * block, block);
             }
-- 
2.43.0


From f39547ecbcf56f67fdb3f6432893076908ae4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 035/178] fix: range counts its elements in either direction
 and rejects a zero step or mixed types

---
 src/kernels/cpu/range.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..8dece1b 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -4,6 +4,9 @@
 
 #include "core/tensor_builder.h"
 
+#include <cmath>
+#include <limits>
+
 namespace ts {
     namespace cpu {
 
@@ -16,17 +19,23 @@ namespace ts {
 
         template<typename T>
         static int cpu_range_infer(const Tensor &start_tensor, const Tensor & limit_tensor, const Tensor & delta_tensor) {
-            int steps = 0;
             T start = start_tensor.data<T>()[0];
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
-            steps = int((limit - start) / delta);
-           
-            if(steps * delta + start  < limit)  {
-                steps++;
+            if (delta == T(0)) {
+                TS_LOG_ERROR << "range delta can not be zero." << eject;
             }
-            return steps;
+
+            // range go up from start to limit when delta is positive, and go down when delta is negative
+            bool up = delta > T(0);
+            if (!(up ? start < limit : start > limit)) return 0;
+
+            double steps = std::ceil((double(limit) - double(start)) / double(delta));
+            if (!(steps <= double(std::numeric_limits<int32_t>::max()))) {
+                TS_LOG_ERROR << "range has too many elements: " << steps << eject;
+            }
+            return int(steps);
         }
 
         template<typename T>
@@ -52,6 +61,9 @@ namespace ts {
             TS_AUTO_CHECK(limit.count() == 1);
             TS_AUTO_CHECK(delta.count() == 1);
 
+            TS_AUTO_CHECK(limit.dtype() == start.dtype());
+            TS_AUTO_CHECK(delta.dtype() == start.dtype());
+
             int steps = 0; 
             DTYPE dtype = start.dtype();
             switch (dtype) {
-- 
2.43.0


From ac11bc163c22f19d019ee13dc3060d3b401127af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 036/178] fix: constant_of_shape and memset reject an empty
 value instead of looping for ever

---
 src/core/memory.cpp                   | 2 ++
 src/kernels/cpu/constant_of_shape.cpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/core/memory.cpp b/src/core/memory.cpp
index 5b690b7..bf56549 100644
--- a/src/core/memory.cpp
+++ b/src/core/memory.cpp
@@ -123,6 +123,8 @@ namespace ts {
 
     void memset(void *dst_ptr, const Device &dst_device, size_t dst_size, const void *src_ptr, const Device &src_device,
                 size_t src_size) {
+        if (dst_size == 0) return;
+        TS_AUTO_CHECK(src_size > 0);
         HardConverter::function cross_device_converter = HardConverter::Query(dst_device.type(),
                                                                               src_device.type());
         TS_AUTO_CHECK(cross_device_converter != nullptr);
diff --git a/src/kernels/cpu/constant_of_shape.cpp b/src/kernels/cpu/constant_of_shape.cpp
index 3ddbb25..6ce4711 100644
--- a/src/kernels/cpu/constant_of_shape.cpp
+++ b/src/kernels/cpu/constant_of_shape.cpp
@@ -16,6 +16,7 @@ namespace ts {
             } else {
                 m_tensor = tensor::build(FLOAT32, 0.f);
             }
+            TS_AUTO_CHECK(m_tensor.count() == 1);
         }
 
         int ConstantOfShape::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
@@ -23,6 +24,9 @@ namespace ts {
 
             auto x = stack[0];
             auto shape = tensor::array::to_int(x);
+            for (auto dim : shape) {
+                TS_AUTO_CHECK(dim >= 0);
+            }
 
             output.resize(1);
             output[0] = Tensor::Prototype(m_tensor.dtype(), shape);
-- 
2.43.0


From 939634910c566cc9fb38d23eb7117e9bab1ecbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 037/178] fix: slice_v3 and strided_slice keep element 0 out of
 an exclusive end at -extent, reject zero steps, and slice_v3 maps negative
 axes

---
 src/backend/base/base_slice_v3.cpp      | 10 ++++++----
 src/backend/base/base_strided_slice.cpp |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..b7ad4bb 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -47,7 +47,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
@@ -55,9 +55,9 @@ namespace ts {
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
             } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
+                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
@@ -358,6 +358,8 @@ namespace ts {
             } else {
                 steps = Shape(slice_size, 1);
             }
+            TS_AUTO_CHECK(ends.size() == starts.size());
+            TS_AUTO_CHECK(steps.size() == starts.size());
 
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
@@ -389,7 +391,7 @@ namespace ts {
             for (int32_t i = 0; i < slice_size; ++i) {
                 auto start = starts[i];
                 auto end = ends[i];
-                auto axis = axes[i];
+                auto axis = axes[i] < 0 ? axes[i] + dims : axes[i];
                 auto step = steps[i];
 
                 m_begin[axis] = start;
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..acbd1a3 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -71,7 +71,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
@@ -79,9 +79,9 @@ namespace ts {
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
             } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
+                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
                 return 0;
             }
         }
-- 
2.43.0


From 645b0aa1be0995707933c404334b7a176074fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 038/178] fix: strided_slice follows the index expression for
 new axes, empty ellipses and selected indices

---
 src/backend/base/base_strided_slice.cpp | 29 ++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index acbd1a3..71dd29d 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <climits>
 
 namespace ts {
     namespace base {
@@ -135,9 +136,34 @@ namespace ts {
             auto slice_size = begin.size();
             if (slice_size == 0) return false;
 
+            // only the masks on given index are meaningful
+            ellipsis_mask &= (1 << slice_size) - 1;
             auto ellipsis_ones = bit_ones(ellipsis_mask);
             if (ellipsis_ones > 1) return false;
 
+            // ellipsis > new_axis > shrink_axis
+            new_axis_mask &= ~ellipsis_mask;
+            shrink_axis_mask &= ~(ellipsis_mask | new_axis_mask);
+
+            for (size_t i = 0; i < slice_size; ++i) {
+                if (new_axis_mask & (1 << i)) {
+                    // new axis has only one element, ignore the range
+                    stride[i] = 1;
+                    begin_mask |= 1 << i;
+                    end_mask |= 1 << i;
+                } else if (shrink_axis_mask & (1 << i)) {
+                    // begin[i] is the selected index, ignore the range's end
+                    if (stride[i] <= 0) return false;
+                    begin_mask &= ~(1 << i);
+                    if (begin[i] == -1) {
+                        end_mask |= 1 << i;
+                    } else {
+                        end_mask &= ~(1 << i);
+                        end[i] = begin[i] < INT_MAX ? begin[i] + 1 : INT_MAX;
+                    }
+                }
+            }
+
             size_t ellipsis_index = 0;
             Shape ellipsis_shape;
 
@@ -158,6 +184,7 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) --right_count;
                 }
                 auto ellipsis_count = int(x.size()) - left_count - right_count;
+                if (ellipsis_count < 0) return false;
                 in.clear();
                 in.insert(in.end(), x.begin(), x.begin() + left_count);
                 in.insert(in.end(), std::accumulate(x.begin() + left_count, x.begin() + left_count + ellipsis_count, 1, std::multiplies<int>()));
@@ -221,7 +248,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (ellipsis_ones && size_t(i) == ellipsis_index) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
-- 
2.43.0


From 0df69c9d81c3f7340f5bb575f13ce11d8163e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 039/178] fix: a slice step of zero is rejected even if the
 range is empty

---
 src/backend/base/base_slice_v3.cpp      | 8 ++++----
 src/backend/base/base_strided_slice.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index b7ad4bb..8590f3b 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -23,6 +23,9 @@ namespace ts {
         }
 
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) {
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
+            }
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -54,11 +57,8 @@ namespace ts {
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero" << eject;
-                return 0;
+                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             }
         }
 
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 71dd29d..c5d1b44 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -48,6 +48,9 @@ namespace ts {
         }
 
         int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) {
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
+            }
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -79,11 +82,8 @@ namespace ts {
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero" << eject;
-                return 0;
+                return begin > end ? int((int64_t(begin) - end - 1) / -int64_t(stride)) + 1 : 0;
             }
         }
 
-- 
2.43.0


From b06c5f84d7023352f8cc6ca446154fceb002c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 040/178] fix: broadcast keeps an empty extent

---
 src/backend/base/base_broadcast_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_broadcast_v2.cpp b/src/backend/base/base_broadcast_v2.cpp
index cb7adf2..cd1b773 100644
--- a/src/backend/base/base_broadcast_v2.cpp
+++ b/src/backend/base/base_broadcast_v2.cpp
@@ -50,7 +50,7 @@ namespace ts {
                 if (x_shape[i] != 1 && y_shape[i] != 1 && x_shape[i] != y_shape[i]) {
                     z_shape.push_back(1);
                 } else {
-                    z_shape.push_back(std::max(x_shape[i], y_shape[i]));
+                    z_shape.push_back(x_shape[i] == 1 ? y_shape[i] : x_shape[i]);
                 }
             }
 
@@ -192,7 +192,7 @@ namespace ts {
                 if (x[i] != y[i] && x[i] != 1 && y[i] != 1) {
                     TS_LOG_ERROR << "Can not broadcast " << to_string(x) << " to " << to_string(shape) << eject;
                 }
-                output.push_back(std::max(x[i], y[i]));
+                output.push_back(x[i] == 1 ? y[i] : x[i]);
             }
             return true;
         }
-- 
2.43.0


From fbd1ba8ee1ecb27cf6266b85b2622f41b2128fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 041/178] fix: resize2d never samples outside of small images,
 keeps the last row and column, and saturates cubic results

---
 src/backend/base/base_resize2d.cpp |   3 +
 src/kernels/cpu/resize2d.cpp       | 127 +++++++++++++++--------------
 2 files changed, 69 insertions(+), 61 deletions(-)

diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..900303b 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -80,6 +80,9 @@ namespace ts {
             }
             dim = resized_height_dim;
 
+            // there is nothing to sample in an empty image
+            TS_AUTO_CHECK(shape_data[dim] > 0 && shape_data[dim + 1] > 0);
+
             Shape resized_shape = x.sizes();
 
             ready = resized_shape[resized_height_dim] == size_data[resized_height_dim] &&
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..9cc81b5 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -5,6 +5,9 @@
 #include <backend/name.h>
 #include <core/device.h>
 #include <utils/assert.h>
+#include <algorithm>
+#include <cmath>
+#include <limits>
 #ifdef TS_USE_OPENMP
 #include <kernels/common/openmp.h>
 #endif
@@ -35,13 +38,17 @@ namespace ts {
                     double lf_y_s = lfy_scl * n_y_d + bias_y;
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the last row or column has no next one
+                    int n_x_e = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_e = std::min(n_y_s + 1, src_height - 1);
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +57,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_e) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_e * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_e * src_width + n_x_e) * channels + c]);
 
                     }//end for c
                 }
@@ -62,6 +69,49 @@ namespace ts {
         }
 
 
+        template<typename TO>
+        static inline TO clamp(double from) {
+            // cubic interpolation may go beyond the range of its samples
+            if (from >= double(std::numeric_limits<TO>::max())) return std::numeric_limits<TO>::max();
+            if (from <= double(std::numeric_limits<TO>::lowest())) return std::numeric_limits<TO>::lowest();
+            return TO(from);
+        }
+
+        /**
+         * get the four samples and coefficients of cubic interpolation on one axis
+         */
+        static inline void cubic_sample(int dst, double scale, int src_size, int dst_size,
+                                        int index[4], double coeffs[4]) {
+            double f = (double) ((dst + 0.5) * scale - 0.5);
+            int s = int(floor(f));
+            f -= s;
+
+            if (src_size == dst_size) {
+                f = 0;
+                s = dst;
+            } else if (src_size > 3) {
+                if (s < 1) {
+                    f = 0;
+                    s = 1;
+                }
+                if (s >= src_size - 3) {
+                    f = 0;
+                    s = src_size - 3;
+                }
+            }
+
+            const double A = -0.75f;
+
+            coeffs[0] = ((A * (f + 1) - 5 * A) * (f + 1) + 8 * A) * (f + 1) - 4 * A;
+            coeffs[1] = ((A + 2) * f - (A + 3)) * f * f + 1;
+            coeffs[2] = ((A + 2) * (1 - f) - (A + 3)) * (1 - f) * (1 - f) + 1;
+            coeffs[3] = 1.f - coeffs[0] - coeffs[1] - coeffs[2];
+
+            for (int i = 0; i < 4; ++i) {
+                index[i] = std::max(0, std::min(s - 1 + i, src_size - 1));
+            }
+        }
+
         template<typename T>
         static inline void Resize2d_ResizeImageCubic(const T *src_im, int src_width, int src_height, int channels,
                                                      T *dst_im, int dst_width, int dst_height) {
@@ -75,68 +125,23 @@ namespace ts {
 #pragma omp parallel for num_threads(openmp_threads())
 #endif
             for (int j = 0; j < dst_height; ++j) {
-                double fy = (double) ((j + 0.5) * scale_y - 0.5);
-                int sy = int(floor(fy));
-                fy -= sy;
-                //sy = std::min(sy, src_height - 3);
-                //sy = std::max(1, sy);
-                if (sy < 1) {
-                    fy = 0;
-                    sy = 1;
-                }
-
-                if (sy >= src_height - 3) {
-                    fy = 0, sy = src_height - 3;
-                }
-
-                const double A = -0.75f;
-
+                int rows[4];
                 double coeffsY[4];
-                coeffsY[0] = ((A * (fy + 1) - 5 * A) * (fy + 1) + 8 * A) * (fy + 1) - 4 * A;
-                coeffsY[1] = ((A + 2) * fy - (A + 3)) * fy * fy + 1;
-                coeffsY[2] = ((A + 2) * (1 - fy) - (A + 3)) * (1 - fy) * (1 - fy) + 1;
-                coeffsY[3] = 1.f - coeffsY[0] - coeffsY[1] - coeffsY[2];
+                cubic_sample(j, scale_y, src_height, dst_height, rows, coeffsY);
 
                 for (int i = 0; i < dst_width; ++i) {
-                    double fx = (double) ((i + 0.5) * scale_x - 0.5);
-                    int sx = int(floor(fx));
-                    fx -= sx;
-
-                    if (sx < 1) {
-                        fx = 0, sx = 1;
-                    }
-                    if (sx >= src_width - 3) {
-                        fx = 0, sx = src_width - 3;
-                    }
-
+                    int cols[4];
                     double coeffsX[4];
-                    coeffsX[0] = ((A * (fx + 1) - 5 * A) * (fx + 1) + 8 * A) * (fx + 1) - 4 * A;
-                    coeffsX[1] = ((A + 2) * fx - (A + 3)) * fx * fx + 1;
-                    coeffsX[2] = ((A + 2) * (1 - fx) - (A + 3)) * (1 - fx) * (1 - fx) + 1;
-                    coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
+                    cubic_sample(i, scale_x, src_width, dst_width, cols, coeffsX);
 
                     for (int k = 0; k < channels; ++k) {
-                        dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
-
+                        double sum = 0;
+                        for (int n = 0; n < 4; ++n) {
+                            for (int m = 0; m < 4; ++m) {
+                                sum += src_im[rows[m] * srcrows + cols[n] * channels + k] * coeffsX[n] * coeffsY[m];
+                            }
+                        }
+                        dst_im[j * dstrows + i * channels + k] = clamp<T>(sum);
                     }//end k
                 }
             }
-- 
2.43.0


From 73c1b7c7f75e687a1c7695a256cdf53b994db75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 042/178] fix: affine_sample2d samples the last row and column,
 and never reads outside of small images

---
 src/backend/base/base_affine_sample2d.cpp |  6 +-
 src/kernels/cpu/affine_sample2d.cpp       | 93 ++++++++++++++---------
 2 files changed, 63 insertions(+), 36 deletions(-)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 83b8d91..acfc783 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -29,7 +29,7 @@ namespace ts {
             Tensor dim_tensor = tensor::cast(INT32, get(name::dim));
 
             TS_AUTO_CHECK(type_tensor.has_shape(1) || type_tensor.dims() == 0);
-            TS_AUTO_CHECK(dim_tensor.has_shape(1) || type_tensor.dims() == 0);
+            TS_AUTO_CHECK(dim_tensor.has_shape(1) || dim_tensor.dims() == 0);
 
             m_type = Affine_Sample2DType(tensor::to_int(type_tensor));
             m_dim = tensor::to_int(dim_tensor);
@@ -65,6 +65,10 @@ namespace ts {
            
             const int32_t * pdata = size_tensor.data<int32_t>(); 
 
+            TS_AUTO_CHECK(pdata[0] >= 0 && pdata[1] >= 0);
+            // there is nothing to sample in an empty image
+            TS_AUTO_CHECK(input_shape[dim] > 0 && input_shape[dim + 1] > 0);
+
             input_shape[dim] = pdata[0];
             input_shape[dim +1] = pdata[1];
 
diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..6c1c6c2 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -27,6 +27,12 @@ namespace ts {
             T z;
         };
 
+        template<typename T>
+        static T limit(T pos) {
+            constexpr auto MAX = T(1 << 30);
+            return pos > -MAX ? (pos < MAX ? pos : MAX) : -MAX;
+        }
+
         template<typename T>
         static vec3d<T> transform(float rz00, float rz01, float rz02, float rz10, float rz11, float rz12,
                                   float rz20, float rz21, float rz22, const vec3d<T> &pos) {
@@ -35,6 +41,9 @@ namespace ts {
             ret.x = rz00 * pos.x + rz01 * pos.y + rz02 * pos.z;
             ret.y = rz10 * pos.x + rz11 * pos.y + rz12 * pos.z;
             ret.z = rz20 * pos.x + rz21 * pos.y + rz22 * pos.z;
+            // keep the location convertible to integer, no image is that large
+            ret.x = limit(ret.x);
+            ret.y = limit(ret.y);
             return ret;
         }
 
@@ -42,7 +51,9 @@ namespace ts {
         static TO clamp(FROM from) {
             constexpr auto MAX = FROM(std::numeric_limits<TO>::max());
             constexpr auto MIN = FROM(std::numeric_limits<TO>::lowest());
-            return TO(std::max(MIN, std::min(MAX, from)));
+            if (from >= MAX) return std::numeric_limits<TO>::max();
+            if (from <= MIN) return std::numeric_limits<TO>::lowest();
+            return TO(from);
         }
 
         template<typename T>
@@ -72,8 +83,8 @@ namespace ts {
                     double lf_x_s = location.x;
                     double lf_y_s = location.y;
 
-                    auto inner = lf_x_s >= 0 && lf_x_s < src_width - 1 &&
-                                 lf_y_s >= 0 && lf_y_s < src_height - 1;
+                    auto inner = lf_x_s >= 0 && lf_x_s <= src_width - 1 &&
+                                 lf_y_s >= 0 && lf_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -83,13 +94,17 @@ namespace ts {
                     }
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the last row or column has no next one
+                    int n_x_e = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_e = std::min(n_y_s + 1, src_height - 1);
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +113,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_e) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_e * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_e * src_width + n_x_e) * channels + c]));
 
                     } //end for c
                 }
@@ -139,8 +154,8 @@ namespace ts {
                     auto n_x_s = int(std::round(lf_x_s));
                     auto n_y_s = int(std::round(lf_y_s));
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s <= src_width - 1 &&
+                                 n_y_s >= 0 && n_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -193,8 +208,8 @@ namespace ts {
                     auto n_x_s = int(lf_x_s);
                     auto n_y_s = int(lf_y_s);
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s <= src_width - 1 &&
+                                 n_y_s >= 0 && n_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -262,23 +277,31 @@ namespace ts {
                         //continue;
                     }
                     else{
-                        if (sy < 1) {
+                        if (sy < 1 && x_height > 3) {
                             fy = 0;
                             sy = 1;
                         }
-                        if (sy >= x_height - 3) {
+                        if (sy >= x_height - 3 && x_height > 3) {
                             fy = 0;
                             sy = x_height - 3;
                         }
-                        if (sx < 1) {
+                        if (sx < 1 && x_width > 3) {
                             fx = 0;
                             sx = 1;
                         }
-                        if (sx >= x_width - 3) {
+                        if (sx >= x_width - 3 && x_width > 3) {
                             fx = 0;
                             sx = x_width - 3;
                         }
 
+                        // image smaller than 4 pixels can not hold all samples, repeat its border
+                        int rows[4];
+                        int cols[4];
+                        for (int i = 0; i < 4; ++i) {
+                            rows[i] = std::max(0, std::min(sy - 1 + i, x_height - 1));
+                            cols[i] = std::max(0, std::min(sx - 1 + i, x_width - 1));
+                        }
+
                         coeffsY[0] = ((A * (fy + 1) - 5 * A) * (fy + 1) + 8 * A) * (fy + 1) - 4 * A;
                         coeffsY[1] = ((A + 2) * fy - (A + 3)) * fy * fy + 1;
                         coeffsY[2] = ((A + 2) * (1 - fy) - (A + 3)) * (1 - fy) * (1 - fy) + 1;
@@ -291,25 +314,25 @@ namespace ts {
 
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[rows[0] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[rows[0] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[rows[1] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[rows[2] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[rows[3] * srcrows + cols[3] * channels + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
-- 
2.43.0


From 8a3499c830d855d77e8335ea166ab282b9a458ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 043/178] fix: divided rejects sizes that are not positive

---
 src/backend/zoo/divided.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/zoo/divided.cpp b/src/backend/zoo/divided.cpp
index 9c08527..b880941 100644
--- a/src/backend/zoo/divided.cpp
+++ b/src/backend/zoo/divided.cpp
@@ -33,6 +33,7 @@ namespace ts {
             m_size.resize(count);
             for (int i = 0; i < count; ++i) {
                 m_size[i] = size_data[i];
+                TS_AUTO_CHECK(m_size[i] > 0);
             }
 
             auto &context = ctx::ref<DeviceContext>();
-- 
2.43.0


From 400119f73dff519e11914ed3f36bb2ff884148a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 044/178] fix: nhwc_scale_resize2d rejects empty images instead
 of dividing by zero

---
 src/backend/zoo/nhwc_scale_resize2d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..312359a 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -68,6 +68,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
@@ -84,6 +85,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
-- 
2.43.0


From 1019d9e56d350ed135a6cf8f86720b16c8f02f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 045/178] fix: nhwc_center_crop2d rejects a negative crop size

---
 src/backend/zoo/nhwc_center_crop2d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/zoo/nhwc_center_crop2d.cpp b/src/backend/zoo/nhwc_center_crop2d.cpp
index bbbaffc..a565b65 100644
--- a/src/backend/zoo/nhwc_center_crop2d.cpp
+++ b/src/backend/zoo/nhwc_center_crop2d.cpp
@@ -30,6 +30,8 @@ namespace ts {
             m_size.width = size.data<int32_t>(0);
             m_size.height = size.data<int32_t>(1);
 
+            TS_AUTO_CHECK(m_size.width >= 0 && m_size.height >= 0);
+
             auto &context = ctx::ref<DeviceContext>();
 
             m_pad_op = OperatorCreator::Create(context.computing_device.type(), name::layer::pad(), false);
-- 
2.43.0


From 0e7d5254d31cd39282c4882cbc01af5af91950ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 046/178] fix: proposal returns its regions instead of a
 reallocated output buffer

---
 include/kernels/common/third/dragon/tensor.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/kernels/common/third/dragon/tensor.h b/include/kernels/common/third/dragon/tensor.h
index 3ce2c27..aff168c 100644
--- a/include/kernels/common/third/dragon/tensor.h
+++ b/include/kernels/common/third/dragon/tensor.h
@@ -153,6 +153,17 @@ namespace ts {
                     }
                 }
                 m_shape = shape;
+                if (!m_shape_updated || m_tst.dtype() == VOID) return;
+                auto count = std::accumulate(shape.begin(), shape.end(), int64_t(1), std::multiplies<int64_t>());
+                if (count < 0 || count > m_tst.count()) return;
+                // reshaping to fewer elements keeps the leading ones
+                ts::Tensor kept(m_tst.device(), m_tst.dtype(), cast_tensor<int32_t>(m_shape));
+                auto bytes = size_t(count) * m_tst.proto().type_bytes();
+                if (bytes > 0) {
+                    memcpy(kept.data(), kept.device(), bytes, m_tst.data(), m_tst.device(), bytes);
+                }
+                m_tst = kept;
+                m_shape_updated = false;
             }
 
             const void *view(const MemoryDevice &device) const {
-- 
2.43.0


From 61806bf579dc1dc1442f2cdce092a09d354a3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 047/178] fix: proposal and roi_align run with a live context
 and initialised parameters

---
 include/kernels/common/third/dragon/operator.h | 9 ++++++++-
 src/kernels/cpu/proposal.cpp                   | 7 +++++--
 src/kernels/cpu/roi_align.cpp                  | 7 +++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/kernels/common/third/dragon/operator.h b/include/kernels/common/third/dragon/operator.h
index ebf5e6a..e0295c3 100644
--- a/include/kernels/common/third/dragon/operator.h
+++ b/include/kernels/common/third/dragon/operator.h
@@ -8,6 +8,7 @@
 #include "workspace.h"
 #include "tensor.h"
 
+#include <memory>
 #include <set>
 
 #include <core/tensor_builder.h>
@@ -144,7 +145,13 @@ namespace ts {
             Operator(const OperatorDef &def, Workspace *ws) : supper(def, ws) {
             }
 
-            Context *ctx() { return nullptr; }
+            Context *ctx() {
+                if (!m_ctx) m_ctx = std::make_shared<Context>(this->ws());
+                return m_ctx.get();
+            }
+
+        private:
+            std::shared_ptr<Context> m_ctx;
         };
 
 #define USE_OPERATOR_FUNCTIONS \
diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..60f634e 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -20,12 +20,15 @@ namespace ts {
     namespace cpu {
         class Proposal : public OperatorOnCPU<base::Proposal> {
         public:
+            using supper = OperatorOnCPU<base::Proposal>;
+
+            dragon::Workspace m_workspace;
             std::shared_ptr<dragon::ProposalOp<dragon::CPUContext>> m_dragon;
             int m_output_size;
 
             void init() override {
-                dragon::Workspace ws;
-                m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
+                supper::init();
+                m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &m_workspace);
                 auto max_level = tensor::to_int(get("max_level"));
                 auto min_level = tensor::to_int(get("min_level"));
                 m_output_size = max_level - min_level + 1;
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..e83f8ec 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -20,11 +20,14 @@ namespace ts {
 
         class ROIAlign : public OperatorOnCPU<base::ROIAlign> {
         public:
+            using supper = OperatorOnCPU<base::ROIAlign>;
+
+            dragon::Workspace m_workspace;
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
-                dragon::Workspace ws;
-                m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
+                supper::init();
+                m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &m_workspace);
             }
 
             int run(Stack &stack) override {
-- 
2.43.0


From 2e5bc2e5a1a7ba9199980bfa985e4ebb5dff5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 048/178] fix: proposal uses each image's own scores and deltas

---
 src/kernels/cpu/dragon/proposal_op.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 0218212..70d844b 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -120,6 +120,8 @@ void ProposalOp<Context>::RunWithType(
         }
         total_rois += num_rois;
         Ydata += (num_rois * 5);
+        scores += Input(-3).count() / num_images;
+        bbox_deltas += Input(-2).count() / num_images;
         im_info += Input(-1).dim(1);
     }
     Output(0)->Reshape(vector<int64_t>({ total_rois, 5 }));
-- 
2.43.0


From e68974eecafde2b2af5bc188d6387f3a488fe61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 049/178] fix: proposal rejects inputs whose sizes do not match
 its anchors

---
 src/kernels/cpu/dragon/proposal_op.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 70d844b..35d9fd8 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -158,7 +158,25 @@ template <class Context>
 void ProposalOp<Context>::RunOnDevice() {
     ctx()->set_stream_id(0);  // Enforce SyncStream
 
+    CHECK_GT(InputSize(), 3) << "\nExcepted features, scores, deltas and image info." << eject;
+    CHECK_GT(pre_nms_top_n, 0) << "\npre_nms_top_n must > 0" << eject;
+    CHECK_GT(post_nms_top_n, 0) << "\npost_nms_top_n must > 0" << eject;
+    CHECK_GT(ratios.size(), 0) << "\nThere should be given at least one ratio." << eject;
+    CHECK_GT(scales.size(), 0) << "\nThere should be given at least one scale." << eject;
+
     num_images = Input(0).dim(0);
+    CHECK_GT(num_images, 0) << "\nThere should be given at least one image." << eject;
+    CHECK_GT(Input(-1).dim(1), 2) << "\nImage info has to be (height, width, scale)." << eject;
+    int64_t num_proposals = 0;
+    for (size_t i = 0; i + 3 < InputSize() && i < strides.size(); ++i) {
+        num_proposals += Input(i).dim(2) * Input(i).dim(3) *
+                int64_t(ratios.size() * (strides.size() == 1 ? scales.size() : 1));
+    }
+    CHECK_GT(num_proposals, 0) << "\nThere should be given at least one proposal." << eject;
+    CHECK_EQ(Input(-3).count(), num_images * num_proposals)
+        << "\nExcepted " << num_images * num_proposals << " scores." << eject;
+    CHECK_EQ(Input(-2).count(), num_images * num_proposals * 4)
+        << "\nExcepted " << num_images * num_proposals * 4 << " deltas." << eject;
     CHECK_EQ(Input(-1).dim(0), num_images)
         << "\nExcepted " << num_images << " groups image info, "
         << "but got " << Input(-1).dim(0) << "." << eject;
-- 
2.43.0


From a5851b18b8af7b0128db53fa29cce67ce5bb231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 050/178] fix: operators report failed checks as exceptions
 instead of exiting the process

---
 src/backend/base/base_proposal.cpp   | 6 ++++--
 src/backend/base/base_roi_align.cpp  | 8 ++++----
 src/kernels/cpu/ceil.cpp             | 4 ++--
 src/kernels/cpu/detection_output.cpp | 4 ++--
 src/kernels/cpu/floor.cpp            | 4 ++--
 src/kernels/cpu/prior_box.cpp        | 6 +++---
 6 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/backend/base/base_proposal.cpp b/src/backend/base/base_proposal.cpp
index 2720765..c3723e8 100644
--- a/src/backend/base/base_proposal.cpp
+++ b/src/backend/base/base_proposal.cpp
@@ -35,10 +35,12 @@ namespace ts {
             m_max_level = tensor::to_int(get("max_level"));
             m_canonical_scale = tensor::to_int(get("canonical_scale"));
             m_canonical_level = tensor::to_int(get("canonical_level"));
+
+            TS_AUTO_CHECK(m_max_level >= m_min_level);
         }
 
         int Proposal::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
 
             auto num_images = stack[0].size(0);
 
@@ -53,7 +55,7 @@ namespace ts {
         }
 
         int Proposal::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
             
             auto memory_device = this->running_memory_device();
 
diff --git a/src/backend/base/base_roi_align.cpp b/src/backend/base/base_roi_align.cpp
index 8048b96..282c2e9 100644
--- a/src/backend/base/base_roi_align.cpp
+++ b/src/backend/base/base_roi_align.cpp
@@ -24,8 +24,8 @@ namespace ts {
         }
 
         int ROIAlign::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             output.resize(1);
             output[0] = Tensor::Prototype(stack[0].dtype(), {stack[1].size(0), stack[0].size(1), m_pool_h, m_pool_w});
@@ -34,8 +34,8 @@ namespace ts {
         }
 
         int ROIAlign::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             auto memory_device = this->running_memory_device();
 
diff --git a/src/kernels/cpu/ceil.cpp b/src/kernels/cpu/ceil.cpp
index 3b8112d..bf3889a 100644
--- a/src/kernels/cpu/ceil.cpp
+++ b/src/kernels/cpu/ceil.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 7cd6fd2..2e01946 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -121,7 +121,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack, false));
@@ -135,7 +135,7 @@ namespace ts {
             }
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
                 using Dtype = float;
                 auto loc = tensor::cast(FLOAT32,  stack[0]);
                 auto conf = tensor::cast(FLOAT32,  stack[1]);
diff --git a/src/kernels/cpu/floor.cpp b/src/kernels/cpu/floor.cpp
index 8b38194..c57bd02 100644
--- a/src/kernels/cpu/floor.cpp
+++ b/src/kernels/cpu/floor.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index d979dda..c5b81c2 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -45,7 +45,7 @@ namespace ts {
 
             void init() final {
                 min_sizes_ = tensor::array::to_float(get("min_size"));
-                TS_AUTO_ASSERT(!min_sizes_.empty());
+                TS_AUTO_CHECK(!min_sizes_.empty());
                 for (auto &size : min_sizes_) {
                     TS_CHECK_GT(size, 0) << "min_size must be positive." << eject;
                 }
@@ -150,7 +150,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 1);
+                TS_AUTO_CHECK(stack.size() >= 1);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
@@ -172,7 +172,7 @@ namespace ts {
                 const int layer_height = feat.size(2);
                 int img_width, img_height;
                 if (img_h_ == 0 || img_w_ == 0) {
-                    TS_AUTO_ASSERT(stack.size() > 1);
+                    TS_AUTO_CHECK(stack.size() > 1);
                     auto &img = stack[1];
                     img_width = img.size(3);
                     img_height = img.size(2);
-- 
2.43.0


From 86a6fb01d954f7ec53ac19d89c14f06fafc30741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 051/178] fix: roi_align rejects regions of missing batch items

---
 src/backend/base/base_roi_align.cpp | 2 ++
 src/kernels/cpu/roi_align.cpp       | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/backend/base/base_roi_align.cpp b/src/backend/base/base_roi_align.cpp
index 282c2e9..cc2c8c6 100644
--- a/src/backend/base/base_roi_align.cpp
+++ b/src/backend/base/base_roi_align.cpp
@@ -26,6 +26,8 @@ namespace ts {
         int ROIAlign::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             TS_AUTO_CHECK(stack.size() == 2);
             TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack[0].dims() == 4);
+            TS_AUTO_CHECK(stack[1].dims() == 2 && stack[1].size(1) == 5);
 
             output.resize(1);
             output[0] = Tensor::Prototype(stack[0].dtype(), {stack[1].size(0), stack[0].size(1), m_pool_h, m_pool_w});
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index e83f8ec..17b848c 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -31,6 +31,15 @@ namespace ts {
             }
 
             int run(Stack &stack) override {
+                std::vector<Tensor::Prototype> output;
+                infer(stack, output);
+
+                auto regions = tensor::cast(FLOAT32, stack[1].view(MemoryDevice(CPU)));
+                for (int i = 0; i < regions.size(0); ++i) {
+                    // a negative batch index marks an unused region
+                    TS_AUTO_CHECK(regions.data<float>(i * 5) < stack[0].size(0));
+                }
+
                 m_dragon->bind_outputs(1);
 
                 m_dragon->bind_inputs(std::vector<Tensor>(stack.begin(), stack.end()));
-- 
2.43.0


From e4fefe55dff05618b473e9f5fc7d8a12c6dbeef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 052/178] fix: shape_index_patch rejects positions that do not
 belong to the batch

---
 src/backend/base/base_shape_index_patch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_shape_index_patch.cpp b/src/backend/base/base_shape_index_patch.cpp
index b507ddc..4d053f7 100644
--- a/src/backend/base/base_shape_index_patch.cpp
+++ b/src/backend/base/base_shape_index_patch.cpp
@@ -46,6 +46,8 @@ namespace ts {
             auto landmarkx2 = pos.size(1);
 
             TS_AUTO_CHECK(landmarkx2 % 2 == 0);
+            TS_AUTO_CHECK(pos.size(0) == x.size(0));
+            TS_AUTO_CHECK(pos.size(2) == 1 && pos.size(3) == 1);
 
             auto &x_shape = x.sizes();
 
-- 
2.43.0


From 5f5fcbcbed2b035280a35fbccb15afa979418a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 053/178] fix: prior_box keeps the fraction of step_w and
 step_h

---
 src/kernels/cpu/prior_box.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index c5b81c2..e79d5a5 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -118,9 +118,9 @@ namespace ts {
                 if (has("step_h") || has("step_w")) {
                     TS_CHECK(!has("step"))
                             << "Either step or step_h/step_w should be specified; not both." << eject;
-                    step_h_ = tensor::to_int(get("step_h"));
+                    step_h_ = tensor::to_float(get("step_h"));
                     TS_CHECK_GT(step_h_, 0.) << "step_h should be larger than 0." << eject;
-                    step_w_ = tensor::to_int(get("step_w"));
+                    step_w_ = tensor::to_float(get("step_w"));
                     TS_CHECK_GT(step_w_, 0.) << "step_w should be larger than 0." << eject;
                 } else if (has("step")) {
                     const float step = tensor::to_float(get("step"));
-- 
2.43.0


From a6544930cd7cbbf2912d91397106a0f4e45e3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 054/178] fix: prior_box without an image size is rejected
 instead of measuring its own output

---
 src/kernels/cpu/prior_box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index e79d5a5..dc7992c 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -165,7 +165,6 @@ namespace ts {
             int run(Stack &stack) final {
                 TS_AUTO_CHECK(stack.size() >= 1);
                 auto feat = tensor::cast(FLOAT32, stack[0]);
-                auto &top = *stack.push(FLOAT32, infer_top_shape(feat), CPU);
                 using Dtype = float;
 
                 const int layer_width = feat.size(3);
@@ -180,6 +179,7 @@ namespace ts {
                     img_width = img_w_;
                     img_height = img_h_;
                 }
+                auto &top = *stack.push(FLOAT32, infer_top_shape(feat), CPU);
                 float step_w, step_h;
                 if (step_w_ == 0 || step_h_ == 0) {
                     step_w = static_cast<float>(img_width) / layer_width;
-- 
2.43.0


From 05b7f7d9cbdf53cf192d2f8f84b1862faad187f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 055/178] fix: non_max_suppression_v3 rejects scores that are
 not float

---
 src/backend/base/base_non_max_suppression_v3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/base/base_non_max_suppression_v3.cpp b/src/backend/base/base_non_max_suppression_v3.cpp
index 6d3d290..7b39704 100644
--- a/src/backend/base/base_non_max_suppression_v3.cpp
+++ b/src/backend/base/base_non_max_suppression_v3.cpp
@@ -43,6 +43,7 @@ namespace ts {
             TS_AUTO_CHECK(score_shape[0] == x_shape[0]);
 
             TS_AUTO_CHECK(x.dtype() == FLOAT32);
+            TS_AUTO_CHECK(score.dtype() == FLOAT32);
 
             Shape shape;
             shape.resize(1);
@@ -56,6 +57,9 @@ namespace ts {
         int Non_Max_Suppression_V3::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
+            std::vector<Tensor::Prototype> output;
+            infer(stack, output);
+
             auto memory_device = running_memory_device();
             auto box = stack[0].view(memory_device);
             auto scores = stack[1].view(memory_device);
-- 
2.43.0


From 13f41307fa09e9621ef222dbb213d97b829e33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 056/178] fix: yolo_poster rejects inputs that do not describe
 one batch of yolo layers

---
 src/kernels/cpu/yolo_poster.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/yolo_poster.cpp b/src/kernels/cpu/yolo_poster.cpp
index 052bab6..e91283f 100644
--- a/src/kernels/cpu/yolo_poster.cpp
+++ b/src/kernels/cpu/yolo_poster.cpp
@@ -77,6 +77,35 @@ namespace ts {
                 return count;
             }
 
+            /**
+             * check if every input got after the first one is the output of a yolo layer, of the same batch and classes
+             */
+            static void check_inputs(Stack &stack) {
+                TS_AUTO_CHECK(stack.size() > 1);
+                TS_AUTO_CHECK(stack[0].dims() == 4);
+
+                auto num = int(stack.size());
+                for (int i = 1; i < num; ++i) {
+                    TS_AUTO_CHECK(stack[i].fields_count() == 4);
+                    auto yolo = stack[i].field(0);
+                    auto classes = stack[i].field(1);
+                    auto mask = stack[i].field(2);
+                    auto anchors = stack[i].field(3);
+
+                    TS_AUTO_CHECK(yolo.dims() == 4);
+                    TS_AUTO_CHECK(classes.dtype() == INT32 && classes.count() == 1 && classes.data<int32_t>(0) > 0);
+                    TS_AUTO_CHECK(mask.dtype() == INT32);
+                    TS_AUTO_CHECK(anchors.dtype() == FLOAT32);
+                    TS_AUTO_CHECK(yolo.size(0) == stack[-1].field(0).size(0));
+                    TS_AUTO_CHECK(yolo.size(1) == mask.count() * (4 + 1 + classes.data<int32_t>(0)));
+
+                    for (int j = 0; j < mask.count(); ++j) {
+                        auto index = mask.data<int32_t>(j);
+                        TS_AUTO_CHECK(index >= 0 && index < anchors.count() / 2);
+                    }
+                }
+            }
+
             /**
              *
              * @param stack list of packed4tensor
@@ -84,7 +113,7 @@ namespace ts {
              * @return not used
              */
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
-                // TS_AUTO_CHECK(stack.size() == 1);
+                check_inputs(stack);
 
                 auto num = stack.size();
 
@@ -314,6 +343,8 @@ namespace ts {
             };
 
             int run(Stack &stack) override {
+                check_inputs(stack);
+
                 auto num = stack.size();
 
                 int out_classes = stack[-1].field(1).data<int32_t>(0);
-- 
2.43.0


From d8643663b39000be993602fe041da5a32537aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 057/178] fix: winograd convolution honours negative and
 cancelling paddings

---
 src/kernels/common/function.cpp     |  3 +-
 src/kernels/cpu/pad2d_algorithm.cpp | 54 ++++++++---------------------
 2 files changed, 16 insertions(+), 41 deletions(-)

diff --git a/src/kernels/common/function.cpp b/src/kernels/common/function.cpp
index 7b3a9bb..364ef5b 100644
--- a/src/kernels/common/function.cpp
+++ b/src/kernels/common/function.cpp
@@ -56,7 +56,8 @@ namespace ts{
         fixed_input_pad.left = padding.left;
         fixed_input_pad.right = input_padded_width - input_width - fixed_input_pad.left;
 
-        bool in_need_pad = input_padded_height != input_height || input_padded_width != input_width;
+        bool in_need_pad = input_padded_height != input_height || input_padded_width != input_width
+                           || fixed_input_pad.top != 0 || fixed_input_pad.left != 0;
         bool out_need_pad = out_padded_height != out_height || out_padded_width != out_width;
         if (in_need_pad) {
             Tensor padded_input(Tensor::InFlow::HOST, input.dtype(),
diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ff39501..553d93a 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -135,48 +135,22 @@ namespace ts{
                     const T* src_at = src_data + n * src_num_offset + c * src_channel_offset;
                     T* dst_at = dst_data + n * dst_num_offset + c * dst_channel_offset;
 
-                    //fill top
-                    int h = 0;
-                    for (; h < pad_top; h++){
-                        int w = 0;
-                        for (; w < out_w; w++){
-                            dst_at[w] = value;
-                        }
-                        dst_at += out_w;
-                    }
-
-                    //fill center
-                    for (; h < pad_top + src_shape[2]; h++){
-                        int w = 0;
-                        for (; w < pad_left; w++){
-                            dst_at[w] = value;
-                        }
-                        //for (; w < (pad_left + src_w); w++) {
-                        //    dst_at[w] = src_at[w - pad_left];
-                        //}
-                        //NOTE:12 is an empirical data,but ts::memcpy is very slow,sad
-                        if (src_w < 12){
-                            for (; w < (pad_left + src_w); w++){
-                                dst_at[w] = src_at[w - pad_left];
-                            }
+                    // a negative padding crops
+                    int copy_begin = std::min(std::max(pad_left, 0), out_w);
+                    int copy_end = std::max(std::min(pad_left + src_w, out_w), copy_begin);
+
+                    for (int h = 0; h < out_h; h++){
+                        int src_row = h - pad_top;
+                        if (src_row < 0 || src_row >= src_h){
+                            std::fill(dst_at, dst_at + out_w, value);
                         }
                         else{
-                            //memcpy(dst_at + pad_left, out_device, size_t(src_w * out.proto().type_bytes()),
-                            //    src_at, x_device, size_t(src_w * x.proto().type_bytes()));
-                            std::memcpy(dst_at + pad_left, src_at, src_w * sizeof(T));
-                            w += src_w;
-                        }
-                        for (; w < out_w; w++){
-                            dst_at[w] = value;
-                        }
-                        dst_at += out_w;
-                        src_at += src_w;
-                    }
-                    // fill bottom
-                    for (; h < out_h; h++){
-                        int w = 0;
-                        for (; w < out_w; w++){
-                            dst_at[w] = value;
+                            std::fill(dst_at, dst_at + copy_begin, value);
+                            if (copy_end > copy_begin){
+                                std::memcpy(dst_at + copy_begin, src_at + src_row * src_w + (copy_begin - pad_left),
+                                            (copy_end - copy_begin) * sizeof(T));
+                            }
+                            std::fill(dst_at + copy_end, dst_at + out_w, value);
                         }
                         dst_at += out_w;
                     }
-- 
2.43.0


From 3c4d2c6f80d377d825ba451bf84918894dd821bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 058/178] fix: tensors reject negative extents and element
 counts that do not fit

---
 include/core/tensor.h | 15 ++++++++++++---
 src/core/tensor.cpp   | 22 +++++++++++++++++-----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/core/tensor.h b/include/core/tensor.h
index 2f875b0..de98168 100644
--- a/include/core/tensor.h
+++ b/include/core/tensor.h
@@ -13,9 +13,11 @@
 #include <initializer_list>
 
 #include "core/threadsafe/smart.h"
+#include "utils/except.h"
 
 #include <vector>
 #include <cassert>
+#include <limits>
 
 #include "tensor_iterator.h"
 
@@ -68,9 +70,16 @@ namespace ts {
             int count() const { return count(m_sizes); };
 
             static int count(const Shape &shape) {
-                int prod = 1;
-                for (int _size : shape) prod *= _size;
-                return prod;
+                int64_t prod = 1;
+                bool overflow = false;
+                for (int _size : shape) {
+                    if (_size == 0) return 0;
+                    if (overflow) continue;
+                    prod *= _size;
+                    overflow = prod > std::numeric_limits<int>::max() || prod < std::numeric_limits<int>::min();
+                }
+                if (overflow) throw Exception("Too many elements in shape " + to_string(shape));
+                return int(prod);
             }
 
         protected:
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 5190d95..76ed551 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -78,6 +78,15 @@ namespace ts {
         return proto.dtype() == VOID && proto.dims() == 0;
     }
 
+    static size_t bytes_of(const Tensor::Prototype &proto) {
+        for (auto size : proto.sizes()) {
+            if (size < 0) {
+                TS_LOG_ERROR << "Can not build tensor with shape " << to_string(proto.sizes()) << eject;
+            }
+        }
+        return size_t(proto.count()) * size_t(proto.type_bytes());
+    }
+
 //    static bool is_empty(DTYPE dtype, const Shape &shape) {
 //        return dtype == VOID && shape.size() == 0;
 //    }
@@ -100,31 +109,31 @@ namespace ts {
     Tensor::Tensor(MemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes()))))
+                       : Smart<TensorMemory>(controller->alloc(bytes_of(proto))))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(bytes_of(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto, const MemoryDevice &device)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : controller->alloc(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(device, bytes_of(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const MemoryDevice &device, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : make_smart<TensorMemory>(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : make_smart<TensorMemory>(device, bytes_of(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : Smart<TensorMemory>(bytes_of(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Memory &memory, const Tensor::Prototype &proto)
@@ -226,6 +235,9 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
-- 
2.43.0


From 243a366f62cf9f83c235356b8aceb11a95bc922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 059/178] fix: tile checks its operand count when it runs

---
 src/backend/base/base_tile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_tile.cpp b/src/backend/base/base_tile.cpp
index 9710d5d..7483f26 100644
--- a/src/backend/base/base_tile.cpp
+++ b/src/backend/base/base_tile.cpp
@@ -72,6 +72,8 @@ namespace ts {
         }
 
         int Tile::run(ts::Stack &stack) {
+            TS_AUTO_CHECK(stack.size() == 1);
+
             auto memory_device = running_memory_device();
 
             auto x = stack[0].view(memory_device);
-- 
2.43.0


From b00db418b23d99f9fb3c34bf6d9a90076577686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 060/178] fix: pooling padding operators check the shape of
 their operands

---
 src/backend/dragon/pooling2d_auto_pad.cpp | 3 +++
 src/backend/mxnet/pooling2d_padding.cpp   | 3 +++
 src/backend/tf/pooling2d_padding.cpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/backend/dragon/pooling2d_auto_pad.cpp b/src/backend/dragon/pooling2d_auto_pad.cpp
index bc463b7..bae60e0 100644
--- a/src/backend/dragon/pooling2d_auto_pad.cpp
+++ b/src/backend/dragon/pooling2d_auto_pad.cpp
@@ -178,6 +178,9 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
diff --git a/src/backend/mxnet/pooling2d_padding.cpp b/src/backend/mxnet/pooling2d_padding.cpp
index 0a7e8a1..a6cfe2f 100644
--- a/src/backend/mxnet/pooling2d_padding.cpp
+++ b/src/backend/mxnet/pooling2d_padding.cpp
@@ -77,6 +77,9 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack.index(1)->view(MemoryDevice(CPU)));
             auto stride_tensor = tensor::cast(INT32, stack.index(2)->view(MemoryDevice(CPU)));
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+
             Padding2D dynamic_padding;
 
             if (this->valid) {
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index aa4478a..db039fc 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -154,6 +154,9 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
-- 
2.43.0


From b70efb0f01c1caa2813a8e486ae8d552eea09f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 061/178] fix: norm_image and prewhiten return an empty result
 for an empty image

---
 src/kernels/cpu/norm_image.cpp | 1 +
 src/kernels/cpu/prewhiten.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kernels/cpu/norm_image.cpp b/src/kernels/cpu/norm_image.cpp
index 10115a4..0f12b43 100644
--- a/src/kernels/cpu/norm_image.cpp
+++ b/src/kernels/cpu/norm_image.cpp
@@ -35,6 +35,7 @@ namespace ts {
 
             // fot batch
             auto batch = x.size(0);
+            if (count == 0) return;
             count /= batch;
             auto batch_outout_data = output_data;
 
diff --git a/src/kernels/cpu/prewhiten.cpp b/src/kernels/cpu/prewhiten.cpp
index 42080af..111414f 100644
--- a/src/kernels/cpu/prewhiten.cpp
+++ b/src/kernels/cpu/prewhiten.cpp
@@ -19,6 +19,7 @@ namespace ts {
 
 			// fot batch
 			auto batch = x.size(0);
+			if (count == 0) return;
 			count /= batch;
 			auto batch_outout_data = output_data;
 
-- 
2.43.0


From 7aa695b3d67118636a96bd42e5b7e06cb24dfc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 062/178] fix: flatten rejects dims outside the supported range

---
 src/backend/base/base_flatten.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_flatten.cpp b/src/backend/base/base_flatten.cpp
index a06c69f..4b28451 100644
--- a/src/backend/base/base_flatten.cpp
+++ b/src/backend/base/base_flatten.cpp
@@ -23,6 +23,7 @@ namespace ts {
         Shape Flatten::newshape(const Tensor &x) {
             auto fixed_dim = m_dim;
             if (fixed_dim < 0) fixed_dim += int(x.dims());
+            TS_AUTO_CHECK(fixed_dim >= 0 && fixed_dim < 7);
             auto need_size = size_t(fixed_dim + 1);
             auto x_size = x.sizes().size();
             if (need_size < x_size) {
-- 
2.43.0


From 3829bdfaae6f476f993bfddd5c42aceb237ba4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 063/178] fix: softmax over an empty dimension returns the
 empty tensor

---
 src/kernels/cpu/softmax.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernels/cpu/softmax.cpp b/src/kernels/cpu/softmax.cpp
index fceb35d..e02522f 100644
--- a/src/kernels/cpu/softmax.cpp
+++ b/src/kernels/cpu/softmax.cpp
@@ -21,6 +21,8 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
+            if (body_num == 0) return;
+
             if (body_num == 1) {
                 T one(1);
                 memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
@@ -81,6 +83,8 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
+            if (body_num == 0) return;
+
             if (body_num == 1) {
                 T one(1);
                 memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-- 
2.43.0


From 2bd3bf771b5fa916f51b3987caf84acaf48077da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 064/178] fix: roi_align samples nothing at a position that is
 not a number

---
 src/kernels/cpu/dragon/roi_align_op_kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
index 00352cc..32675c1 100644
--- a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
+++ b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
@@ -22,7 +22,7 @@ namespace ts {
                     const int width,
                     T y,
                     T x) {
-                if (y < -1.0 || y > height || x < -1.0 || x > width) return 0;
+                if (!(y >= -1.0 && y <= height && x >= -1.0 && x <= width)) return 0;
                 if (y <= 0) y = 0;
                 if (x <= 0) x = 0;
 
-- 
2.43.0


From 3fbc8f939523c42edf835deae0266d4598487f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 065/178] fix: proposal checks the size of the image info

---
 src/kernels/cpu/dragon/proposal_op.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 35d9fd8..4af78ce 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -180,6 +180,8 @@ void ProposalOp<Context>::RunOnDevice() {
     CHECK_EQ(Input(-1).dim(0), num_images)
         << "\nExcepted " << num_images << " groups image info, "
         << "but got " << Input(-1).dim(0) << "." << eject;
+    CHECK_GT(Input(-1).count(), num_images * 3 - 1)
+        << "\nExcepted (height, width, scale) in each image info." << eject;
     roi_indices_.Reshape({ post_nms_top_n });
     Output(0)->Reshape({ num_images * post_nms_top_n, 5 });
 
-- 
2.43.0


From 076e1182da50d47603b7ed8fb99cf21c34139685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 066/178] fix: onnx pooling padding checks the shape of its
 operands

---
 src/backend/onnx/pooling2d_auto_pad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index c430e6c..dbb72de 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -187,6 +187,9 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
-- 
2.43.0


From 72b23ded33f5470d5ca2690c597be08f1d4ff130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 067/178] fix: l2_norm of an integer zero vector is zero

---
 src/kernels/cpu/l2_norm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index a2a7de7..3fba89d 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -67,7 +67,7 @@ namespace ts {
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-                        *loop_out = *loop_in / norm;
+                        *loop_out = std::is_integral<T>::value && norm == 0 ? T(0) : T(*loop_in / norm);
 
                         loop_in += tail_num;
                         loop_out += tail_num;
-- 
2.43.0


From ae3e265af214a2b3432bda77d0898b98a8812123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 068/178] fix: reduce_mean rejects the integer mean of no
 elements

---
 src/kernels/cpu/reduce_mean.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernels/cpu/reduce_mean.cpp b/src/kernels/cpu/reduce_mean.cpp
index 6a786b0..05e2515 100644
--- a/src/kernels/cpu/reduce_mean.cpp
+++ b/src/kernels/cpu/reduce_mean.cpp
@@ -54,6 +54,10 @@ namespace ts {
                 }
             }
 
+            if (channels == 0 && std::is_integral<T>::value && output_count > 0) {
+                TS_LOG_ERROR << "Can not get the integer mean of no elements." << eject;
+            }
+
             auto local_output_data = output_data;
             for (int i = 0; i < output_count; ++i) {
                 *local_output_data /= channels;
-- 
2.43.0


From ad47625ecf66bf0a22cc6b58135cddfd4674845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 069/178] fix: prior_box checks the rank of its operands

---
 src/kernels/cpu/prior_box.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index dc7992c..45e7ba9 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -151,6 +151,7 @@ namespace ts {
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
                 TS_AUTO_CHECK(stack.size() >= 1);
+                TS_AUTO_CHECK(stack[0].dims() == 4);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
@@ -164,6 +165,7 @@ namespace ts {
 
             int run(Stack &stack) final {
                 TS_AUTO_CHECK(stack.size() >= 1);
+                TS_AUTO_CHECK(stack[0].dims() == 4);
                 auto feat = tensor::cast(FLOAT32, stack[0]);
                 using Dtype = float;
 
@@ -173,6 +175,7 @@ namespace ts {
                 if (img_h_ == 0 || img_w_ == 0) {
                     TS_AUTO_CHECK(stack.size() > 1);
                     auto &img = stack[1];
+                    TS_AUTO_CHECK(img.dims() == 4);
                     img_width = img.size(3);
                     img_height = img.size(2);
                 } else {
-- 
2.43.0


From ced5a02c11f03e0eb963e1cf816c3c84e0445801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 070/178] fix: yolo returns an empty result for an empty
 feature map

---
 src/kernels/cpu/yolo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/yolo.cpp b/src/kernels/cpu/yolo.cpp
index 174b52b..3d1dee0 100644
--- a/src/kernels/cpu/yolo.cpp
+++ b/src/kernels/cpu/yolo.cpp
@@ -98,6 +98,8 @@ namespace ts {
 
             template<typename T>
             static void compute_run(layer l) {
+                if (l.w * l.h == 0) return;
+
                 int b, n;
                 auto data = reinterpret_cast<T *>(l.output);
                 for (b = 0; b < l.batch; ++b) {
-- 
2.43.0


From 36d6770fd3cd8630f37c7b9bf2a442c62d4dcd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 071/178] fix: crop_to does not change its negative axis when
 it runs

---
 src/kernels/cpu/crop_to.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..0684c13 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -98,7 +98,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From 47fdd728c24e9ac80df38e2c4cbc87c39aacb9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 072/178] fix: stack checks that its operands have one shape
 when it runs

---
 src/kernels/cpu/stack_tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/stack_tensor.cpp b/src/kernels/cpu/stack_tensor.cpp
index 51e4cb6..c96e5a2 100644
--- a/src/kernels/cpu/stack_tensor.cpp
+++ b/src/kernels/cpu/stack_tensor.cpp
@@ -30,6 +30,7 @@ namespace ts {
             int nargs = int(stack.size());
             for (int i = 0; i < nargs; ++i) {
                 auto &x = stack[i];
+                TS_AUTO_CHECK(x.has_shape(stack[0].sizes()) && x.dtype() == stack[0].dtype());
                 auto shape = x.sizes();
                 shape.insert(shape.begin() + fixed_axis, 1);
                 stack.push(x.reshape(shape));
-- 
2.43.0


From 05ba25d0930f1c0b8fe1789c4f6ac55b369d71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 073/178] fix: resize_nearest_neighbor rejects inputs with
 fewer than two dimensions

---
 src/kernels/cpu/resize_nearest_neighbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/resize_nearest_neighbor.cpp b/src/kernels/cpu/resize_nearest_neighbor.cpp
index f6194e9..39e50fa 100644
--- a/src/kernels/cpu/resize_nearest_neighbor.cpp
+++ b/src/kernels/cpu/resize_nearest_neighbor.cpp
@@ -57,7 +57,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
             Shape tmpshape(x_shape.size(), -1);
 
             tmpshape[m_dim] = size_tensor.data<int32_t>()[0];
@@ -84,7 +84,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
 
             Shape tmpshape(x_shape.size(), -1);
 
-- 
2.43.0


From 5e8a5956bd6ab2f716efbe020d0c53cd7dba13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 074/178] fix: softmax of an integer tensor does not divide by
 a zero sum

---
 src/kernels/cpu/softmax.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/softmax.cpp b/src/kernels/cpu/softmax.cpp
index e02522f..cf7739b 100644
--- a/src/kernels/cpu/softmax.cpp
+++ b/src/kernels/cpu/softmax.cpp
@@ -65,7 +65,7 @@ namespace ts {
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-                        *loop_out /= sum;
+                        if (!std::is_integral<T>::value || sum != 0) *loop_out /= sum;
 
                         loop_in += tail_num;
                         loop_out += tail_num;
@@ -134,7 +134,7 @@ namespace ts {
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-                        *loop_out /= sum;
+                        if (!std::is_integral<T>::value || sum != 0) *loop_out /= sum;
 
                         loop_in += tail_num;
                         loop_out += tail_num;
-- 
2.43.0


From b3b626fffd88ca739be80b81bdf2d176aa0e078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 075/178] fix: LSTM checks the shapes of its operands

---
 src/backend/base/base_lstm.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index 607fe45..734fb5b 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -146,19 +146,29 @@ namespace ts {
         }
 
         int LSTM::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
+            TS_AUTO_CHECK(stack.size() == 6);
+            TS_AUTO_CHECK(m_hidden_size > 0);
+
             auto x = stack[0];
             auto w = stack[1];
             auto r = stack[2];
+            auto b = stack[3];
 
-            output.resize(3);
             int num_directions = m_direction == 2 ? 2 : 1;
-            auto y = Tensor(x.dtype(), {x.size(0), num_directions, x.size(1), m_hidden_size});
-            auto y_h = Tensor(x.dtype(), {num_directions, x.size(1), m_hidden_size});
-            auto y_c = Tensor(x.dtype(), {num_directions, x.size(1), m_hidden_size});
 
-            output[0] = y.proto();
-            output[1] = y_h.proto();
-            output[2] = y_c.proto();
+            TS_AUTO_CHECK(x.dims() == 3);
+            TS_AUTO_CHECK(w.has_shape({num_directions, 4 * m_hidden_size, x.size(2)}) && w.dtype() == x.dtype());
+            TS_AUTO_CHECK(r.has_shape({num_directions, 4 * m_hidden_size, m_hidden_size}) && r.dtype() == x.dtype());
+            TS_AUTO_CHECK(b.has_shape({num_directions, 8 * m_hidden_size}) && b.dtype() == x.dtype());
+            for (int i = 4; i < 6; ++i) {
+                if (stack[i].dims() < 3) continue;
+                TS_AUTO_CHECK(stack[i].has_shape({num_directions, x.size(1), m_hidden_size}) && stack[i].dtype() == x.dtype());
+            }
+
+            output.resize(3);
+            output[0] = Tensor::Prototype(x.dtype(), {x.size(0), num_directions, x.size(1), m_hidden_size});
+            output[1] = Tensor::Prototype(x.dtype(), {num_directions, x.size(1), m_hidden_size});
+            output[2] = Tensor::Prototype(x.dtype(), {num_directions, x.size(1), m_hidden_size});
 
             return 1;
         }
-- 
2.43.0


From b6a42b0a967de44e2bbf496b2859915a97d3b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 076/178] fix: detection_output checks the shapes of its
 operands and its code type

---
 src/kernels/cpu/detection_output.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 2e01946..49a6611 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -68,7 +68,9 @@ namespace ts {
                 share_location_ = tensor::to_bool(get("share_location"));
                 num_loc_classes_ = share_location_ ? 1 : num_classes_;
                 background_label_id_ = tensor::to_int(get("background_label_id"));
-                code_type_ = CodeType(tensor::to_int(get("code_type")));
+                auto code_type = tensor::to_int(get("code_type"));
+                TS_AUTO_CHECK(code_type >= int(CodeType::CORNER) && code_type <= int(CodeType::CORNER_SIZE));
+                code_type_ = CodeType(code_type);
                 variance_encoded_in_target_ =
                         tensor::to_bool(get("variance_encoded_in_target"));
                 keep_top_k_ = tensor::to_int(get("keep_top_k"));
@@ -88,6 +90,11 @@ namespace ts {
 
             std::vector<int> infer_top_shape(Stack &stack, bool alloc_buffer = false) {
                 auto &bottom = stack;
+                TS_AUTO_CHECK(bottom[0].dims() == 2 || bottom[0].dims() == 4);
+                TS_AUTO_CHECK(bottom[1].dims() == 2 || bottom[1].dims() == 4);
+                TS_AUTO_CHECK(bottom[0].count() == bottom[0].size(0) * bottom[0].size(1));
+                TS_AUTO_CHECK(bottom[1].count() == bottom[1].size(0) * bottom[1].size(1));
+                TS_AUTO_CHECK(bottom[2].dims() >= 3 && bottom[2].count() >= 2 * bottom[2].size(2));
                 TS_AUTO_CHECK_EQ(bottom[0].size(0), bottom[1].size(0));
 
                 // malloc memory, remeber to free then
@@ -98,6 +105,7 @@ namespace ts {
                 }
 
                 num_priors_ = bottom[2].size(2) / 4;
+                TS_AUTO_CHECK(num_priors_ > 0);
                 TS_CHECK_EQ(num_priors_ * num_loc_classes_ * 4, bottom[0].size(1))
                         << "Number of priors must match number of location predictions." << eject;
                 TS_CHECK_EQ(num_priors_ * num_classes_, bottom[1].size(1))
-- 
2.43.0


From 7231ce7dfa0d904a1e41cf860b311634d952a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 077/178] fix: pooling padding operators reject empty windows
 and strides

---
 src/backend/dragon/pooling2d_auto_pad.cpp | 3 +++
 src/backend/mxnet/pooling2d_padding.cpp   | 3 +++
 src/backend/onnx/pooling2d_auto_pad.cpp   | 3 +++
 src/backend/tf/pooling2d_padding.cpp      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/backend/dragon/pooling2d_auto_pad.cpp b/src/backend/dragon/pooling2d_auto_pad.cpp
index bae60e0..921c780 100644
--- a/src/backend/dragon/pooling2d_auto_pad.cpp
+++ b/src/backend/dragon/pooling2d_auto_pad.cpp
@@ -180,6 +180,9 @@ namespace ts {
 
             TS_AUTO_CHECK(shape.size() == 4);
             TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+            for (int i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(ksize_tensor.data<int32_t>(i) > 0 && stride_tensor.data<int32_t>(i) > 0);
+            }
 
             Padding2D dynamic_padding;
 
diff --git a/src/backend/mxnet/pooling2d_padding.cpp b/src/backend/mxnet/pooling2d_padding.cpp
index a6cfe2f..0309f1e 100644
--- a/src/backend/mxnet/pooling2d_padding.cpp
+++ b/src/backend/mxnet/pooling2d_padding.cpp
@@ -79,6 +79,9 @@ namespace ts {
 
             TS_AUTO_CHECK(shape.size() == 4);
             TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+            for (int i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(ksize_tensor.data<int32_t>(i) > 0 && stride_tensor.data<int32_t>(i) > 0);
+            }
 
             Padding2D dynamic_padding;
 
diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index dbb72de..4af1364 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -189,6 +189,9 @@ namespace ts {
 
             TS_AUTO_CHECK(shape.size() == 4);
             TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+            for (int i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(ksize_tensor.data<int32_t>(i) > 0 && stride_tensor.data<int32_t>(i) > 0);
+            }
 
             Padding2D dynamic_padding;
 
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index db039fc..ccb3a88 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -156,6 +156,9 @@ namespace ts {
 
             TS_AUTO_CHECK(shape.size() == 4);
             TS_AUTO_CHECK(ksize_tensor.has_shape({4}) && stride_tensor.has_shape({4}));
+            for (int i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(ksize_tensor.data<int32_t>(i) > 0 && stride_tensor.data<int32_t>(i) > 0);
+            }
 
             Padding2D dynamic_padding;
 
-- 
2.43.0


From 205b3f1a5ea870b5b523e9e219e499643cfe1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 078/178] fix: convolution and pooling reject strides that are
 not positive

---
 include/backend/common_function.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/backend/common_function.h b/include/backend/common_function.h
index d954883..618dbe0 100644
--- a/include/backend/common_function.h
+++ b/include/backend/common_function.h
@@ -7,12 +7,15 @@
 
 #include "common_structure.h"
 
+#include "utils/except.h"
+
 #include <algorithm>
 #include <cmath>
 
 namespace ts {
     inline Size2D pooling2d_forward(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
                                     const Stride2D &stride) {
+        if (stride.height <= 0 || stride.width <= 0) throw Exception("Pooling stride must be positive");
         Size2D y;
         y.height = int(std::ceil((x.height + padding.top + padding.bottom - ksize.height) / (float) stride.height + 1));
         y.width = int(std::ceil((x.width + padding.left + padding.right - ksize.width) / (float) stride.width + 1));
@@ -29,6 +32,7 @@ namespace ts {
 
     inline Size2D conv2d_forward(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
                                  const Stride2D &stride, const Dilation2D &dialations) {
+        if (stride.height <= 0 || stride.width <= 0) throw Exception("Convolution stride must be positive");
         Size2D y;
         y.height = Size2D::Dtype(std::floor(
                 (x.height + padding.top + padding.bottom -
-- 
2.43.0


From a50cf0d8f84b9c5bb0bd8129029de5947a254d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 079/178] fix: LSTM rejects an empty sequence

---
 src/backend/base/base_lstm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index 734fb5b..956cf84 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -156,7 +156,7 @@ namespace ts {
 
             int num_directions = m_direction == 2 ? 2 : 1;
 
-            TS_AUTO_CHECK(x.dims() == 3);
+            TS_AUTO_CHECK(x.dims() == 3 && x.size(0) > 0);
             TS_AUTO_CHECK(w.has_shape({num_directions, 4 * m_hidden_size, x.size(2)}) && w.dtype() == x.dtype());
             TS_AUTO_CHECK(r.has_shape({num_directions, 4 * m_hidden_size, m_hidden_size}) && r.dtype() == x.dtype());
             TS_AUTO_CHECK(b.has_shape({num_directions, 8 * m_hidden_size}) && b.dtype() == x.dtype());
-- 
2.43.0


From 14c29631b4432829b2fe1b954f3bfee63eda060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 080/178] fix: transposed convolution rejects strides that are
 not positive

---
 include/backend/common_function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/backend/common_function.h b/include/backend/common_function.h
index 618dbe0..e445cd6 100644
--- a/include/backend/common_function.h
+++ b/include/backend/common_function.h
@@ -45,6 +45,7 @@ namespace ts {
 
     inline Size2D conv2d_backward(const Size2D &y, const Padding2D &padding, const KSize2D &ksize,
                                   const Stride2D &stride, const Dilation2D &dialations) {
+        if (stride.height <= 0 || stride.width <= 0) throw Exception("Convolution stride must be positive");
         Size2D x;
         x.height = (y.height - 1) * stride.height + (dialations.height * (ksize.height - 1) + 1)
                    - padding.top - padding.bottom;
-- 
2.43.0


From 035755544ce8b00357ca4d4e5f0ac6ba70e86b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 081/178] fix: proposal checks the number of scores of each
 image

---
 src/kernels/cpu/dragon/proposal_op.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 4af78ce..cc6ddfd 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -175,6 +175,10 @@ void ProposalOp<Context>::RunOnDevice() {
     CHECK_GT(num_proposals, 0) << "\nThere should be given at least one proposal." << eject;
     CHECK_EQ(Input(-3).count(), num_images * num_proposals)
         << "\nExcepted " << num_images * num_proposals << " scores." << eject;
+    if (strides.size() > 1) {
+        CHECK_EQ(Input(-3).dim(1), num_proposals)
+            << "\nExcepted " << num_proposals << " scores of each image." << eject;
+    }
     CHECK_EQ(Input(-2).count(), num_images * num_proposals * 4)
         << "\nExcepted " << num_images * num_proposals * 4 << " deltas." << eject;
     CHECK_EQ(Input(-1).dim(0), num_images)
-- 
2.43.0


From 6404b64d4e7bcfb56440dcc5c7f2f4a9b2ab6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 082/178] fix: reduce_mean rejects dims that are not a list

---
 src/backend/base/base_reduce_mean.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b8dc9ba..8eea0f8 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -23,8 +23,8 @@ namespace ts {
 
             m_dims.clear();
             auto dims_tensor = tensor::cast(INT32, this->get("dims"));
-            int dims_dim = int(dims_tensor.dims());
-            size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
+            TS_AUTO_CHECK(dims_tensor.dims() <= 1);
+            size_t dims_count = size_t(dims_tensor.count());
             m_dims.resize(dims_count);
             auto dims_data = dims_tensor.data<int>();
             for (size_t i = 0; i < dims_count; ++i) {
-- 
2.43.0


From 788a4585f18ecaaa42beb9eddd44f653d8e2ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 083/178] fix: dragon conv2d padding rejects strides that are
 not positive

---
 src/backend/dragon/conv2d_padding.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 05205d7..5a9b2fa 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -56,6 +56,9 @@ namespace ts {
             TS_AUTO_CHECK(dilation.has_shape(4));
             auto stride = tensor::cast(INT32, get(name::stride));
             TS_AUTO_CHECK(stride.has_shape(4));
+            for (int i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(stride.data<int32_t>(i) > 0);
+            }
 
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-- 
2.43.0


From 68c9c527c7d72bbfe605afe6f8b6fc594c7fb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 084/178] fix: roi_align of an empty feature map is zero

---
 src/kernels/cpu/dragon/roi_align_op_kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
index 32675c1..19bfd6a 100644
--- a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
+++ b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
@@ -22,6 +22,7 @@ namespace ts {
                     const int width,
                     T y,
                     T x) {
+                if (height <= 0 || width <= 0) return 0;
                 if (!(y >= -1.0 && y <= height && x >= -1.0 && x <= width)) return 0;
                 if (y <= 0) y = 0;
                 if (x <= 0) x = 0;
-- 
2.43.0


From 186893aee4a0e1d5ac1c68a9d68ee1b5100a383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 085/178] fix: static inference of transpose without permute
 announced an empty shape

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..fbfdd79 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -120,6 +120,7 @@ namespace ts {
                     tmp.push_back(int32_t(i));
                 }
                 std::swap(tmp[tmp.size() - 1], tmp[tmp.size() - 2]);
+                permute = tmp;
             }
 
             auto x_shape = x.sizes();
-- 
2.43.0


From 4629203e263a2f3233f0f706d220aa957e9e1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 086/178] fix: static inference of convolutions computed with
 open kernel and channel extents

---
 src/runtime/inferer/factory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index fbfdd79..075297d 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -165,6 +165,7 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "crop_nd", crop_nd)
 
         static int32_t conv2d_forward(int32_t x, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
+            if (x < 0 || kernel < 0) return -1;
             return int32_t(std::floor((x + padding - (dilation * (kernel - 1) + 1)) / stride + 1));
         }
 
@@ -1155,6 +1156,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto padding_value = get_value(node.input(1));
+            if (padding_value.empty()) return VOID;
             auto padding = tensor::array::to_int(padding_value);
 
             std::vector<int32_t> stide = {1, 1, 1, 1};
@@ -1279,7 +1281,7 @@ namespace ts {
 
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
+            y_shape[channel_dims] = w.size(0) < 0 || x.size(channel_dims) < 0 ? -1 : w.size(0) * x.size(channel_dims);
 
             int32_t kernel_shape[] = {w.size(2), w.size(3)};
 
@@ -1306,6 +1308,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto padding_value = get_value(node.input(1));
+            if (padding_value.empty()) return VOID;
             auto padding = tensor::array::to_int(padding_value);
 
             auto stide = node->get_int_list("stride");
@@ -1329,7 +1332,7 @@ namespace ts {
 
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
+            y_shape[channel_dims] = w.size(0) < 0 || x.size(channel_dims) < 0 ? -1 : w.size(0) * x.size(channel_dims);
 
             int32_t kernel_shape[] = {w.size(2), w.size(3)};
 
@@ -1499,6 +1502,7 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "non_max_suppression_v3", non_max_suppression_v3)
 
         static int32_t conv2d_backward(int32_t y, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
+            if (y < 0 || kernel < 0) return -1;
             return (y - 1) * stride + (dilation * (kernel - 1) + 1) - padding;
         }
 
-- 
2.43.0


From cf6bff64e7c756fbaf20636f823f7f394db21ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 087/178] fix: static inference of element-wise operators
 announced the type of the first operand for mixed types

---
 include/backend/base/element_wise_reduce.h |  5 +++++
 src/backend/base/element_wise_reduce.cpp   | 20 +++++++++++++-------
 src/runtime/inferer/factory.cpp            |  4 +++-
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/backend/base/element_wise_reduce.h b/include/backend/base/element_wise_reduce.h
index 10855c4..dc37e89 100644
--- a/include/backend/base/element_wise_reduce.h
+++ b/include/backend/base/element_wise_reduce.h
@@ -114,6 +114,11 @@ namespace ts {
         Operator::shared caster;
     };
 
+    /**
+     * @return common type of mixed operands, VOID if there is no such type
+     */
+    DTYPE upcast_dtype(DTYPE lhs, DTYPE rhs);
+
     DTYPE upcast_dtype(Operator *op, Tensor &lhs, Tensor &rhs);
     bool uncorr_cast_dtype(DTYPE type);
 }
diff --git a/src/backend/base/element_wise_reduce.cpp b/src/backend/base/element_wise_reduce.cpp
index 12ebfe8..94eeec6 100644
--- a/src/backend/base/element_wise_reduce.cpp
+++ b/src/backend/base/element_wise_reduce.cpp
@@ -78,15 +78,10 @@ namespace ts {
         else return false;
     }
 
-    DTYPE upcast_dtype(Operator *op, Tensor &lhs, Tensor &rhs) {
-        DTYPE lhs_dtype = lhs.dtype();
-        DTYPE rhs_dtype = rhs.dtype();
+    DTYPE upcast_dtype(DTYPE lhs_dtype, DTYPE rhs_dtype) {
         if (lhs_dtype == rhs_dtype) return lhs_dtype;
         else if (uncorr_cast_dtype(lhs_dtype) || uncorr_cast_dtype(rhs_dtype)) {
-            TS_LOG_ERROR << "[" << op->op() << ":" << op->name() << "] Can not reduce mismatch type: "
-                         << type_str(lhs.dtype()) << " vs. "
-                         << type_str(rhs.dtype()) << eject;
-            return static_cast<DTYPE>(0);
+            return VOID;
         } else {
             static const char lookup_table[22][22]{
                     {0, 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, 0,  0,  0,  0, 0, 0, 0, 0, 0},
@@ -116,6 +111,17 @@ namespace ts {
         }
     }
 
+    DTYPE upcast_dtype(Operator *op, Tensor &lhs, Tensor &rhs) {
+        DTYPE lhs_dtype = lhs.dtype();
+        DTYPE rhs_dtype = rhs.dtype();
+        if (lhs_dtype != rhs_dtype && (uncorr_cast_dtype(lhs_dtype) || uncorr_cast_dtype(rhs_dtype))) {
+            TS_LOG_ERROR << "[" << op->op() << ":" << op->name() << "] Can not reduce mismatch type: "
+                         << type_str(lhs.dtype()) << " vs. "
+                         << type_str(rhs.dtype()) << eject;
+        }
+        return upcast_dtype(lhs_dtype, rhs_dtype);
+    }
+
     int ElementWiseReduce::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
         TS_AUTO_CHECK(stack.size() == 2);
 
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 075297d..ebc5807 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -6,6 +6,7 @@
 #include "global/shape_inferer_factory.h"
 #include "utils/static.h"
 #include "backend/name.h"
+#include "backend/base/element_wise_reduce.h"
 
 #include "runtime/inferer.h"
 
@@ -293,7 +294,8 @@ namespace ts {
         }
 
         static TensorPrototype _eltwise(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto dtype = inputs[0].dtype();
+            auto dtype = upcast_dtype(inputs[0].dtype(), inputs[1].dtype());
+            if (dtype == VOID) return VOID;
 
             auto lhs_shape = inputs[0].sizes();
             auto rhs_shape = inputs[1].sizes();
-- 
2.43.0


From f6a36014f4e1beba42b7ee9f6a3a03cbba40bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 088/178] fix: static inference of flatten and flatten2d
 multiplied open extents

---
 src/runtime/inferer/factory.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index ebc5807..ec6b13b 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -321,6 +321,19 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "mul", _eltwise)
         TS_STATIC_ACTION(ShapeInferer::Register, "div", _eltwise)
 
+        /**
+         * @return number of elements, -1 if any extent is open
+         */
+        template<typename _It>
+        static int32_t infer_count(_It begin, _It end) {
+            int32_t count = 1;
+            for (auto it = begin; it != end; ++it) {
+                if (*it < 0) return -1;
+                count *= *it;
+            }
+            return count;
+        }
+
         static TensorPrototype flatten(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
@@ -334,7 +347,7 @@ namespace ts {
             if (need_size < x_size) {
                 auto &size = x.sizes();
                 std::vector<int> shape(size.begin(), size.begin() + need_size);
-                shape.back() = std::accumulate(size.begin() + dim, size.end(), 1, std::multiplies<int>());
+                shape.back() = infer_count(size.begin() + dim, size.end());
                 y_shape = std::move(shape);
             } else if (need_size > x_size) {
                 std::vector<int> ones(need_size - x_size, 1);
@@ -360,12 +373,12 @@ namespace ts {
             std::vector<int> y_shape;
 
             if (dim <= 0) {
-                y_shape = {1, std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>())};
+                y_shape = {1, infer_count(size.begin(), size.end())};
             } else if (dim >= x.dims()) {
-                y_shape = {std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>()), 1};
+                y_shape = {infer_count(size.begin(), size.end()), 1};
             } else {
-                y_shape = {std::accumulate(size.begin(), size.begin() + dim, 1, std::multiplies<int>()),
-                           std::accumulate(size.begin() +  dim, size.end(), 1, std::multiplies<int>())};
+                y_shape = {infer_count(size.begin(), size.begin() + dim),
+                           infer_count(size.begin() + dim, size.end())};
             }
 
             return {x.dtype(), y_shape};
-- 
2.43.0


From 2c6c6945ad0ede7517ba1759931ef1a9ddd2b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 089/178] fix: static inference of reshape stated negative
 extents of its parameter as they are

---
 src/runtime/inferer/factory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index ec6b13b..07843d7 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -430,6 +430,10 @@ namespace ts {
                 shape = tmp.sizes();
             }
 
+            for (auto &dim : shape) {
+                if (dim < 0) dim = -1;
+            }
+
             return {x.dtype(), shape};
         }
 
@@ -873,6 +877,10 @@ namespace ts {
                 shape = tmp.sizes();
             }
 
+            for (auto &dim : shape) {
+                if (dim < 0) dim = -1;
+            }
+
             return {x.dtype(), shape};
         }
 
-- 
2.43.0


From ec494cc5e0e77930edf823a8d362610083437052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 090/178] fix: static inference of divided, nhwc_scale_resize2d
 and sample2d_v2 computed with open extents

---
 src/runtime/inferer/factory.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 07843d7..9cf5ed5 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -835,7 +835,10 @@ namespace ts {
                 auto H = y_shape[1];
                 auto W = y_shape[2];
 
-                if (H > W) {
+                if (H <= 0 || W <= 0) {
+                    y_shape[1] = -1;
+                    y_shape[2] = -1;
+                } else if (H > W) {
                     y_shape[1] = S * H / W;
                     y_shape[2] = S;
                 } else {
@@ -1397,7 +1400,7 @@ namespace ts {
             auto y_shape = x.sizes();
 
             for (size_t i = 0; i < x.dims(); ++i) {
-                if (size[i] == 1) continue;
+                if (size[i] == 1 || y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(std::ceil(float(y_shape[i]) / size[i])) * size[i];
             }
 
@@ -1793,9 +1796,9 @@ namespace ts {
             FIX_DIM_ADD_1(dim, x)
 
             auto y_shape = x.sizes();
-            if (y_shape[dim] > 0)
+            if (y_shape[dim] >= 0)
                 y_shape[dim] = int32_t(x.sizes()[dim] * scale);
-            if (y_shape[dim + 1] > 0)
+            if (y_shape[dim + 1] >= 0)
                 y_shape[dim + 1] = int32_t(x.sizes()[dim + 1] * scale);
 
             return {x.dtype(), y_shape};
@@ -2280,6 +2283,7 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < y_shape.size(); ++i) {
+                if (y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(float(x.size(i)) * scale[i]);
             }
 
-- 
2.43.0


From 7a4d82de85b9deca08b369d70c93cd10dd98af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 091/178] fix: static inference of concat added to an open
 extent

---
 src/runtime/inferer/factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 9cf5ed5..77c989f 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -646,8 +646,9 @@ namespace ts {
             if (dim < 0 || dim >= int32_t(shape.size())) return VOID;
 
             for (size_t i = 1; i < inputs.size(); ++i) {
+                if (inputs[i].dims() != shape.size()) return VOID;
                 auto inc = inputs[i].size(dim);
-                if (inc < 0) {
+                if (inc < 0 || shape[dim] < 0) {
                     shape[dim] = -1;
                     break;
                 }
-- 
2.43.0


From 99ff746af1f6963900451fdae89054abdbe0a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 092/178] fix: static inference of expand ignored the front and
 end limits

---
 src/runtime/inferer/factory.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 77c989f..11b0657 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -712,10 +712,11 @@ namespace ts {
             auto dims_value = get_value(node.input(1));
             if (dims_value.empty()) return VOID;
 
+            if (tensor::to_int(dims_value) < 0) return VOID;
             auto dims = size_t(tensor::to_int(dims_value));
 
-            auto front = int32_t(dims);
-            auto end = int32_t(dims);
+            int32_t front = -1;
+            int32_t end = -1;
             bool inverse = false;
             if (node->has("front")) front = node->get_int("front");
             if (node->has("end")) end = node->get_int("end");
@@ -723,19 +724,27 @@ namespace ts {
 
             auto y = x.sizes();
 
+            // negative limit means no limit
+            if (front < 0) front = int32_t(dims);
+            if (end < 0) end = int32_t(dims);
+
             if (!inverse) {
                 while (y.size() < dims && front > 0) {
                     y.insert(y.begin(), 1);
+                    --front;
                 }
                 while (y.size() < dims && end > 0) {
                     y.insert(y.end(), 1);
+                    --end;
                 }
             } else {
                 while (y.size() < dims && end > 0) {
                     y.insert(y.end(), 1);
+                    --end;
                 }
                 while (y.size() < dims && front > 0) {
                     y.insert(y.begin(), 1);
+                    --front;
                 }
             }
 
-- 
2.43.0


From f032941cfcd87072515a785a86cd9a3d83ffa59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 093/178] fix: static inference of constant_of_shape announced
 the shape of its operand instead of its value

---
 src/runtime/inferer/factory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 11b0657..95127f9 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2407,11 +2407,17 @@ namespace ts {
         static TensorPrototype constant_of_shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
             if (inputs.size() != 1) return VOID;
 
+            GET_NODE_INT_LIST_INPUT(shape, 0)
+
+            for (auto dim : shape) {
+                if (dim < 0) return VOID;
+            }
+
             if (node->has("value")) {
                 auto val_attr = node->get("value");
-                return {val_attr.dtype(), inputs[0].sizes()};
+                return {val_attr.dtype(), shape};
             } else {
-                return {FLOAT32, inputs[0].sizes()};
+                return {FLOAT32, shape};
             }
         }
 
-- 
2.43.0


From 01f6e0869c720f7db107fd23515b8c99d7e997a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 094/178] fix: static inference of data-dependent detection
 outputs stated extents execution does not produce

---
 src/runtime/inferer/factory.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 95127f9..c55bf90 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1528,11 +1528,8 @@ namespace ts {
 
             if (scores.dims() == 0) return VOID;
 
-            auto max_output_size = node->get_int("max_output_size");
-
-            auto K = std::min(scores.size(0), max_output_size);
-
-            return {INT32, {K,}};
+            // the number of selected boxes depends on data
+            return {INT32, {-1,}};
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "non_max_suppression_v3", non_max_suppression_v3)
@@ -1650,21 +1647,17 @@ namespace ts {
     if (node->has(#attr)) attr = node->get_int(#attr);
 
         static TensorPrototype proposal(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto &x = inputs[0];
-
             if (inputs.size() < 3) return VOID;
             auto dtype = inputs[inputs.size() - 3].dtype();
 
             TYR_GET_NODE_INT_ATTR(min_level, 2)
             TYR_GET_NODE_INT_ATTR(max_level, 5)
-            TYR_GET_NODE_INT_ATTR(post_nms_top_n, 300)
 
-            auto num_images = x.size(0);
             auto output_size = max_level - min_level + 1;
 
             std::vector<Tensor::Prototype> output;
             for (int i = 0; i < output_size; ++i) {
-                Shape tmp = {num_images > 0 ? num_images * post_nms_top_n : -1, 5};
+                Shape tmp = {-1, 5};    // the number of regions depends on data
                 output.emplace_back(dtype, tmp);
             }
 
@@ -2012,7 +2005,7 @@ namespace ts {
             auto &yolo = inputs.back();
 
             auto N = yolo.size(0);
-            if (N < 0) N = 1;
+            if (N < 0) return VOID;
 
             std::vector<Tensor::Prototype> outputs(N, Tensor::Prototype(FLOAT32, {-1, 6}));
 
-- 
2.43.0


From 6e47cb93893341db02312a8af1b6cd8bedeea533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 095/178] fix: pad announced one element for an unpadded empty
 dimension, static inference zero elements for a cropped one

---
 src/backend/base/base_pad.cpp   | 1 +
 src/runtime/inferer/factory.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/backend/base/base_pad.cpp b/src/backend/base/base_pad.cpp
index 2bdd287..2d0eca2 100644
--- a/src/backend/base/base_pad.cpp
+++ b/src/backend/base/base_pad.cpp
@@ -34,6 +34,7 @@ namespace ts {
             Shape output_shape = x.sizes();
 
             for (size_t i = 0; i < output_shape.size(); ++i) {
+                if (padding.data<int32_t>(i * 2) == 0 && padding.data<int32_t>(i * 2 + 1) == 0) continue;
                 output_shape[i] += (padding.data<int32_t>(i * 2) + padding.data<int32_t>(i * 2 + 1));
                 if (output_shape[i] < 1) output_shape[i] = 1;
             }
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index c55bf90..6648544 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1634,7 +1634,9 @@ namespace ts {
             auto y_shape = x.sizes();
             for (size_t i = 0; i < x.dims(); ++i) {
                 if (y_shape[i] < 0) continue;
+                if (padding[i * 2] == 0 && padding[i * 2 + 1] == 0) continue;
                 y_shape[i] += padding[i * 2] + padding[i * 2 + 1];
+                if (y_shape[i] < 1) y_shape[i] = 1;
             }
 
             return {x.dtype(), y_shape};
-- 
2.43.0


From e89fcccc5fb5f664c04eb293b7cc5ca842ea2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 096/178] fix: static inference of squeeze did not remove unit
 dimensions by default

---
 src/runtime/inferer/factory.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 6648544..8aad629 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1838,14 +1838,15 @@ namespace ts {
         static TensorPrototype squeeze(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
-            GET_NODE_INT_LIST_ATTR(axes)
+            TRY_GET_NODE_INT_LIST_ATTR(axes)
 
             auto y_shape = x.sizes();
 
             if (axes.empty()) {
-                for (auto it = axes.begin(); it != axes.end(); ) {
+                for (auto it = y_shape.begin(); it != y_shape.end(); ) {
+                    if (*it < 0) return VOID;
                     if (*it == 1) {
-                        it = axes.erase(it);
+                        it = y_shape.erase(it);
                     } else {
                         ++it;
                     }
@@ -1853,7 +1854,9 @@ namespace ts {
             } else {
                 for (auto it = axes.rbegin(); it != axes.rend(); ++it) {
                     auto axis = *it;
-                    FIX_DIM(axis, x)
+                    auto max_axis = int32_t(y_shape.size());
+                    if (axis < 0) axis += max_axis;
+                    if (axis < 0 || axis >= max_axis) return VOID;
                     y_shape.erase(y_shape.begin() + axis);
                 }
             }
-- 
2.43.0


From 0545cbe1e45db69e09e8d7711f71f53216cb68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 097/178] fix: static inference of slice_v3 and strided_slice
 indexed with negative axes and sliced open extents

---
 src/runtime/inferer/factory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 8aad629..4fbbc4e 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2054,6 +2054,7 @@ namespace ts {
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
             // begin \in [0, x)
             // end \in [-1, x]
+            if (x < 0) return -1;
             if (x >= 0) {
                 if (begin_flag) {
                     begin = stride > 0 ? 0 : x - 1;
@@ -2123,6 +2124,7 @@ namespace ts {
 
             for (size_t i = 0; i < N; ++i) {
                 auto dim = axes[i];
+                FIX_DIM(dim, x)
 
                 y_shape[dim] = infer_output(
                         y_shape[dim],
-- 
2.43.0


From 977e8d7095375c1e8a90949bd3e7ea9ea8688005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 098/178] fix: static inference of slice and slice_v2 did not
 take a negative size as up to the end

---
 src/runtime/inferer/factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 4fbbc4e..ea9b281 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2035,14 +2035,14 @@ namespace ts {
             auto y_shape = x.sizes();
             for (size_t i = 0; i < size.size(); ++i) {
                 if (y_shape[i] < 0) {
-                    y_shape[i] = size[i];
+                    y_shape[i] = std::max(size[i], -1);
                     continue;
                 }
                 if (begin[i] >= y_shape[i]) {
                     y_shape[i] = 0;
                     continue;
                 }
-                auto right = std::min(y_shape[i], begin[i] + size[i]);
+                auto right = size[i] < 0 ? y_shape[i] : std::min(y_shape[i], begin[i] + size[i]);
                 y_shape[i] = right - begin[i];
             }
 
@@ -2316,14 +2316,14 @@ namespace ts {
             auto y_shape = x.sizes();
             for (size_t i = 0; i < size.size(); ++i) {
                 if (y_shape[i] < 0) {
-                    y_shape[i] = size[i];
+                    y_shape[i] = std::max(size[i], -1);
                     continue;
                 }
                 if (begin[i] >= y_shape[i]) {
                     y_shape[i] = 0;
                     continue;
                 }
-                auto right = std::min(y_shape[i], begin[i] + size[i]);
+                auto right = size[i] < 0 ? y_shape[i] : std::min(y_shape[i], begin[i] + size[i]);
                 y_shape[i] = right - begin[i];
             }
 
-- 
2.43.0


From 4a3b45dd19b584294dab6f1f0fa22e71e53b1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 099/178] fix: static inference of topkv2 stated the requested
 number for an open extent

---
 src/runtime/inferer/factory.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index ea9b281..ae72652 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1958,7 +1958,6 @@ namespace ts {
                 index = Tensor::Prototype(INT32, x.sizes());
             } else {
                 auto K = std::min(x.sizes().back(), number);
-                if (K < 0) K = number;
                 auto y_shape = x.sizes();
                 y_shape.back() = K;
                 y = Tensor::Prototype(x.dtype(), y_shape);
-- 
2.43.0


From 08006cf75d5fec06ac1407318065cbb0044beb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 100/178] fix: static inference of where stated a unit extent
 for open extents

---
 src/runtime/inferer/factory.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index ae72652..21fb69d 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2384,17 +2384,7 @@ namespace ts {
             auto out_shape = std::vector<int32_t>(dims, -1);
 
             for (size_t i = 0; i < dims; ++i) {
-                int size = cond_shape[i];
-                if (!(cond_shape[i] == lhs_shape[i] && cond_shape[i] == rhs_shape[i])) {
-                    // exception condition
-                    if ((cond_shape[i] != 1 && lhs_shape[i] != 1 && cond_shape[i] != lhs_shape[i]) ||
-                        (cond_shape[i] != 1 && rhs_shape[i] != 1 && cond_shape[i] != rhs_shape[i]) ||
-                        (lhs_shape[i] != 1 && rhs_shape[i] != 1 && lhs_shape[i] != rhs_shape[i])) {
-                        return VOID;
-                    }
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
-                }
-                out_shape[i] = size;
+                out_shape[i] = eltwise_infer_dim(eltwise_infer_dim(cond_shape[i], lhs_shape[i]), rhs_shape[i]);
             }
 
             return {inputs[1].dtype(), out_shape};
-- 
2.43.0


From 1cc2340fddd41c8ef9c23cf6317e6326c808c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 101/178] fix: static inference of gatherv2 read before the
 shape for an open index extent

---
 src/runtime/inferer/factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 21fb69d..fe94ef2 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -1474,6 +1474,7 @@ namespace ts {
 
             auto &indices_shape = indices.sizes();
             auto input_shape = x.sizes();
+            if (indices_shape[indices_shape.size() - 1] < 0) return VOID;
             if (indices_shape[indices_shape.size() - 1] > input_shape.size()) return VOID;
 
             output_shape.insert(output_shape.end(), input_shape.begin() + indices_shape[indices_shape.size() - 1],
-- 
2.43.0


From bbe83f79a723ed33ed37f2aa905333988096b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 102/178] fix: static inference took open extents as the value
 of shape

---
 src/runtime/inferer/factory.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index fe94ef2..37307bb 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -900,9 +900,14 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "_reshape_v2", _reshape_v2)
 
         static TensorPrototype _shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            {
+            auto shape = inputs[0].sizes();
+            bool known = true;
+            for (auto dim : shape) {
+                if (dim < 0) known = false;
+            }
+            // an open extent is no value to compute with
+            if (known) {
                 auto &update_node = *const_cast<Node*>(&node);
-                auto shape = inputs[0].sizes();
                 update_node->set("#value", tensor::build<int32_t>(INT32, shape));
             }
             return {INT32, {int32_t(inputs[0].dims())}};
-- 
2.43.0


From fb54a0ac51ab36929bcabc74eeddb8804c6ffc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 103/178] fix: static inference of dynamic paddings checked the
 wrong extent

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 37307bb..953fd12 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -480,7 +480,7 @@ namespace ts {
                 param0_shape[dim] = x.size(size_t(dim));
             }
 
-            if (param0_shape[channel_dim] < 0) {
+            if (x.size(size_t(channel_dim)) < 0) {
                 return VOID;
             }
             param0_shape[channel_dim] = x.size(size_t(channel_dim));
-- 
2.43.0


From d058d8c92a9d32690bea57721feacc1a1cf0cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 104/178] fix: prior_box announced the input type but produces
 float

---
 src/kernels/cpu/prior_box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index 45e7ba9..9b22654 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -154,7 +154,7 @@ namespace ts {
                 TS_AUTO_CHECK(stack[0].dims() == 4);
 
                 output.resize(1);
-                output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
+                output[0] = Tensor::Prototype(FLOAT32, infer_top_shape(stack[0]));
                 return 1;
             }
 
-- 
2.43.0


From ee60c99d7caaa27934ff9b7a2c38acf66bca0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 105/178] fix: detection_output announced the input type and a
 number of detections it does not produce

---
 src/kernels/cpu/detection_output.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 49a6611..8e3ec93 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -132,7 +132,9 @@ namespace ts {
                 TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
 
                 output.resize(1);
-                output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack, false));
+                auto top_shape = infer_top_shape(stack, false);
+                top_shape[2] = -1;  // the number of detections depends on data
+                output[0] = Tensor::Prototype(FLOAT32, top_shape);
                 return 1;
             }
 
-- 
2.43.0


From aeaa944510c9fe46b06d722db5877e03f3c734a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 106/178] fix: proposal announced a number of regions it does
 not produce

---
 src/backend/base/base_proposal.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/backend/base/base_proposal.cpp b/src/backend/base/base_proposal.cpp
index c3723e8..0d4a7e7 100644
--- a/src/backend/base/base_proposal.cpp
+++ b/src/backend/base/base_proposal.cpp
@@ -42,13 +42,11 @@ namespace ts {
         int Proposal::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             TS_AUTO_CHECK(stack.size() >= 3);
 
-            auto num_images = stack[0].size(0);
-
             auto output_size = m_max_level - m_min_level + 1;
 
             output.resize(output_size);
             for (auto &proto : output) {
-                proto = Tensor::Prototype(stack[-3].dtype(), {num_images * m_post_nms_top_n, 5});
+                proto = Tensor::Prototype(stack[-3].dtype(), {-1, 5});   // the number of regions depends on data
             }
 
             return 1;
-- 
2.43.0


From f70135a094d832d9e1e862c77d8c99b300493227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 107/178] fix: yolo_poster announced the number of detections
 before suppression

---
 src/kernels/cpu/yolo_poster.cpp | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/kernels/cpu/yolo_poster.cpp b/src/kernels/cpu/yolo_poster.cpp
index e91283f..f2ef80d 100644
--- a/src/kernels/cpu/yolo_poster.cpp
+++ b/src/kernels/cpu/yolo_poster.cpp
@@ -62,21 +62,6 @@ namespace ts {
                 return batch * l.outputs + n * l.w * l.h * (4 + l.classes + 1) + entry * l.w * l.h + loc;
             }
 
-            static int yolo_num_detections(layer l, float thresh)
-            {
-                int i, n;
-                int count = 0;
-                for (i = 0; i < l.w*l.h; ++i){
-                    for(n = 0; n < l.n; ++n){
-                        int obj_index  = entry_index(l, 0, n*l.w*l.h + i, 4);
-                        if(l.output[obj_index] > thresh){
-                            ++count;
-                        }
-                    }
-                }
-                return count;
-            }
-
             /**
              * check if every input got after the first one is the output of a yolo layer, of the same batch and classes
              */
@@ -109,7 +94,7 @@ namespace ts {
             /**
              *
              * @param stack list of packed4tensor
-             * @param output shape before nms
+             * @param output list of boxes of each image
              * @return not used
              */
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
@@ -120,24 +105,17 @@ namespace ts {
                 int out_classes = stack[-1].field(1).data<int32_t>(0);
                 int out_n = stack[-1].field(0).size(0);
 
-                int s = 0;
                 for (int i = 1; i < num; ++i) {
-                    auto features = stack[i].unpack();
-                    auto yolo = tensor::cast(FLOAT32, features[0].view(MemoryDevice(CPU)));
-                    auto &classes = features[1];
-                    auto &mask = features[2];
-                    // auto &anchors = features[3];
+                    auto classes = stack[i].field(1);
 
                     if (out_classes != classes.data<int32_t>(0)) {
                         TS_LOG_ERROR << "Input yolo classes mismatch." << eject;
                     }
-
-                    layer l(yolo, out_classes, mask.count());
-                    s += yolo_num_detections(l, m_thresh);
                 }
 
-                // output shape is 4(box: x, y, w, h) + 1(score) + 1(label)
-                output.resize(out_n, Tensor::Prototype(FLOAT32, {s, 4 + 1 + 1}));
+                // output shape is 4(box: x, y, w, h) + 1(score) + 1(label), the number of boxes depends on data
+                output.clear();
+                output.resize(out_n, Tensor::Prototype(FLOAT32, {-1, 4 + 1 + 1}));
                 // output number is batch size
 
                 return 1;
-- 
2.43.0


From 397edc2d7ea71d0b36dbaa33418ffc33ee77ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 108/178] fix: crop_nd announced non-positive sizes instead of
 the kept extents

---
 src/backend/zoo/crop_nd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..843df49 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -47,6 +47,11 @@ namespace ts {
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
 
+            TS_AUTO_CHECK(shape.size() == x.dims());
+            for (size_t i = 0; i < shape.size(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);    // keep this dimension
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
 
-- 
2.43.0


From 9407656802ed4b37b280001c0a948be4e00d26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 109/178] fix: crop_to announced no elements for a dimension
 cropped to one element

---
 src/kernels/cpu/crop_to.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 0684c13..179d7c6 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -80,6 +80,7 @@ namespace ts {
             auto shape = x.sizes();
             for (int i = axis; i < x.dims(); ++i) {
                 shape[i] = y.size(i);
+                if (shape[i] < 1 && shape[i] != x.size(i)) shape[i] = 1;    // as pad does
             }
 
             output.resize(1);
-- 
2.43.0


From a31c14c15fd4d2933fa54e353f31307dfe309a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 110/178] fix: reshaping operators returned more fields than
 they announced for packed operands

---
 src/backend/base/base_broadcast_v2.cpp | 2 +-
 src/backend/base/base_new_shape.cpp    | 2 +-
 src/backend/base/base_pad.cpp          | 2 +-
 src/backend/base/base_reshape_v2.cpp   | 2 +-
 src/backend/base/base_resize2d.cpp     | 2 +-
 src/kernels/cpu/expand.cpp             | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backend/base/base_broadcast_v2.cpp b/src/backend/base/base_broadcast_v2.cpp
index cd1b773..a239174 100644
--- a/src/backend/base/base_broadcast_v2.cpp
+++ b/src/backend/base/base_broadcast_v2.cpp
@@ -133,7 +133,7 @@ namespace ts {
             }
 
             if (!do_broadcast) {
-                stack.push(x.reshape(target));
+                stack.push(x.field(0).reshape(target));
                 return 1;
             }
 
diff --git a/src/backend/base/base_new_shape.cpp b/src/backend/base/base_new_shape.cpp
index aa2ef23..abfd5e9 100644
--- a/src/backend/base/base_new_shape.cpp
+++ b/src/backend/base/base_new_shape.cpp
@@ -21,7 +21,7 @@ namespace ts {
 
             auto &x = stack[0];
 
-            stack.push(x.reshape(output[0].sizes()));
+            stack.push(x.field(0).reshape(output[0].sizes()));
 
             return 1;
         }
diff --git a/src/backend/base/base_pad.cpp b/src/backend/base/base_pad.cpp
index 2d0eca2..1bb1f79 100644
--- a/src/backend/base/base_pad.cpp
+++ b/src/backend/base/base_pad.cpp
@@ -66,7 +66,7 @@ namespace ts {
             }
 
             if (is_zero_padding) {
-                stack.push(0);
+                stack.push(stack[0].field(0));
                 return 1;
             }
 
diff --git a/src/backend/base/base_reshape_v2.cpp b/src/backend/base/base_reshape_v2.cpp
index 97b90a8..cce17c8 100644
--- a/src/backend/base/base_reshape_v2.cpp
+++ b/src/backend/base/base_reshape_v2.cpp
@@ -62,7 +62,7 @@ namespace ts {
 
             auto &x = stack[0];
 
-            stack.push(x.reshape(output[0].sizes()));
+            stack.push(x.field(0).reshape(output[0].sizes()));
 
             return 1;
         }
diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 900303b..a561d03 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -111,7 +111,7 @@ namespace ts {
             auto resized_proto = check_outputs(stack, dim, ready);
 
             if (ready) {
-                stack.push(0);
+                stack.push(stack[0].field(0));
                 return 1;
             }
 
diff --git a/src/kernels/cpu/expand.cpp b/src/kernels/cpu/expand.cpp
index 532f87e..093a91b 100644
--- a/src/kernels/cpu/expand.cpp
+++ b/src/kernels/cpu/expand.cpp
@@ -103,7 +103,7 @@ namespace ts {
                 auto shape = expand(stack);
                 auto &x = stack[0];
 
-                stack.push(x.reshape(shape));
+                stack.push(x.field(0).reshape(shape));
 
                 return 1;
             }
-- 
2.43.0


From 4ca7fba08db669927644c29b59dff7ac1519efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 111/178] fix: static slice inference keeps the last element
 for a negative stride ending at -size

---
 src/runtime/inferer/factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 953fd12..54ed3d2 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2083,7 +2083,7 @@ namespace ts {
                         else if (end < 0) end += x;
                     } else {
                         if (end > x) return 0;     // no elements
-                        else if (end <= -x) end = -1;
+                        else if (end < -x) end = -1;
                         else if (end < 0) end += x;
                     }
                 }
-- 
2.43.0


From d006ccbd59583a028435e9db1668bf268541ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 112/178] fix: static transpose inference treats an empty
 permute like a missing one

---
 src/runtime/inferer/factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 54ed3d2..4ee8f6e 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -114,7 +114,8 @@ namespace ts {
             std::vector<int32_t> permute;
             if (node->has("permute")) {
                 permute = node->get_int_list("permute");
-            } else {
+            }
+            if (permute.empty()) {
                 if (x.dims() < 2) return x;
                 std::vector<int32_t> tmp;
                 for (size_t i = 0; i < x.dims(); ++i) {
-- 
2.43.0


From 2fba233a327b8bc5457aed7ffc791851d45e354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 113/178] fix: force_color and force_gray return only the image
 when there is nothing to convert

---
 src/backend/base/base_force_color.cpp | 6 +++++-
 src/backend/base/base_force_gray.cpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_force_color.cpp b/src/backend/base/base_force_color.cpp
index e582b0a..f8e816f 100644
--- a/src/backend/base/base_force_color.cpp
+++ b/src/backend/base/base_force_color.cpp
@@ -36,7 +36,11 @@ namespace ts {
 
             auto channels = x.size(x.dims() - 1);
 
-            if (channels == 3) return 1;
+            if (channels == 3) {
+                auto same = x.field(0);
+                stack.push(same);
+                return 1;
+            }
 
             if (channels != 1) {
                 TS_LOG_ERROR << "Can not force image " << to_string(x.sizes()) << " to color." << eject;
diff --git a/src/backend/base/base_force_gray.cpp b/src/backend/base/base_force_gray.cpp
index 1165282..8e637d9 100644
--- a/src/backend/base/base_force_gray.cpp
+++ b/src/backend/base/base_force_gray.cpp
@@ -43,7 +43,11 @@ namespace ts {
 
             auto channels = x.size(x.dims() - 1);
 
-            if (channels == 1) return 1;
+            if (channels == 1) {
+                auto same = x.field(0);
+                stack.push(same);
+                return 1;
+            }
 
             auto output_size = x.sizes();
             output_size.back() = 1;
-- 
2.43.0


From d90cede84839225d202e221e70029552ce7eda3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 114/178] fix: _limit returns only the tensor when there is
 nothing to crop

---
 src/backend/zoo/limit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend/zoo/limit.cpp b/src/backend/zoo/limit.cpp
index 3e96a82..1f21b73 100644
--- a/src/backend/zoo/limit.cpp
+++ b/src/backend/zoo/limit.cpp
@@ -88,7 +88,11 @@ namespace ts {
             std::vector<int> limit = m_shape;
 
             auto overflowed = if_overflow(x.sizes(), limit);
-            if (!overflowed) return 1;
+            if (!overflowed) {
+                auto same = x.field(0);
+                stack.push(same);
+                return 1;
+            }
 
             auto x_padding_tensor = Tensor(INT32, Shape({int(limit.size()), 2}));
             auto x_padding_data = x_padding_tensor.data<int32_t>();
-- 
2.43.0


From e96985b3f483fb0d5d8cb28aa88277e66340aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 115/178] fix: _copy announces every field of a packed tensor

---
 src/backend/zoo/copy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backend/zoo/copy.cpp b/src/backend/zoo/copy.cpp
index 1327de8..55a2d13 100644
--- a/src/backend/zoo/copy.cpp
+++ b/src/backend/zoo/copy.cpp
@@ -21,9 +21,12 @@ namespace ts {
         int Copy::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             // TS_AUTO_CHECK(stack.size() == 1);
             TS_AUTO_CHECK(int(stack.size()) == m_output_count);
-            output.resize(stack.size());
+            output.clear();
             for (size_t i = 0; i < stack.size(); ++i) {
-                output[i] = stack[i].proto();
+                auto &x = stack[i];
+                for (size_t j = 0; j < x.fields_count(); ++j) {
+                    output.push_back(x.field(j).proto());
+                }
             }
             return int(stack.size());
         }
-- 
2.43.0


From dcc27b7d1e3b56675da97aa093cb633959b57c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 116/178] fix: nhwc_center_crop2d rejects an empty crop size

---
 src/backend/zoo/nhwc_center_crop2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/zoo/nhwc_center_crop2d.cpp b/src/backend/zoo/nhwc_center_crop2d.cpp
index a565b65..995c3be 100644
--- a/src/backend/zoo/nhwc_center_crop2d.cpp
+++ b/src/backend/zoo/nhwc_center_crop2d.cpp
@@ -30,7 +30,7 @@ namespace ts {
             m_size.width = size.data<int32_t>(0);
             m_size.height = size.data<int32_t>(1);
 
-            TS_AUTO_CHECK(m_size.width >= 0 && m_size.height >= 0);
+            TS_AUTO_CHECK(m_size.width > 0 && m_size.height > 0);
 
             auto &context = ctx::ref<DeviceContext>();
 
-- 
2.43.0


From d54bccf4e1c0e504893a05a70b6ce41ec1184293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 117/178] fix: a stream that ends early or delivers in pieces
 no longer loads as a truncated object

---
 include/module/io/stream.h  | 21 ++++++++++++++++++---
 src/module/io/fstream.cpp   |  1 +
 src/module/loaders/open.cpp |  6 +++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..ca6a05c 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,19 +41,33 @@ namespace ts {
     };
 
     namespace binio {
+        /**
+         * Read exactly size bytes, the stream may deliver them in several pieces
+         * @note throw Exception if the stream ends before size bytes were read
+         */
+        inline size_t read_full(StreamReader &stream, void *buffer, size_t size) {
+            size_t done = 0;
+            while (done < size) {
+                auto step = stream.read(reinterpret_cast<char *>(buffer) + done, size - done);
+                if (step == 0 || step > size - done) throw Exception("Unexpected end of stream.");
+                done += step;
+            }
+            return done;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_full(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_full(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_full(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1cc4fa8..ec1e428 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -38,6 +38,7 @@ namespace ts {
     }
 
     void FileStreamReaderV2::rewind() {
+        m_stream.clear();
         m_stream.seekg(0, std::ios::beg);
     }
 
diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..cbfa68c 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -12,7 +12,11 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
 
     // 0. read header
     Header header;
-    read_size += header.externalize(stream);
+    try {
+        read_size += header.externalize(stream);
+    } catch (const Exception &) {
+        throw FormatMismatchException("Module format mismatch.");   // the stream is shorter than a header
+    }
     if (header.code != TS_MODULE_CODE_V1) {
         throw FormatMismatchException("Module format mismatch.");
     }
-- 
2.43.0


From 97170eaa2f48b6d573445b68b0383f728bc2687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 118/178] fix: module loading rejects node indices outside the
 graph

---
 src/module/loaders/open.cpp | 10 ++++++++--
 src/module/menu.cpp         |  9 +++++++--
 src/module/module.cpp       | 16 ++++++++++++----
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index cbfa68c..125bbe9 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -33,10 +33,16 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
     read_size += externalize_graph(stream, g);
     const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
     // x.1 convert inputs and outputs
+    auto node_at = [&](uint32_t index) {
+        if (index >= nodes.size()) {
+            TS_LOG_ERROR << "Module node index " << index << " out of range(" << nodes.size() << ")" << eject;
+        }
+        return nodes[index];
+    };
     std::vector<Node> inputs;
-    for (auto index : input_index) inputs.emplace_back(nodes[index]);
+    for (auto index : input_index) inputs.emplace_back(node_at(index));
     std::vector<Node> outputs;
-    for (auto index : output_index) outputs.emplace_back(nodes[index]);
+    for (auto index : output_index) outputs.emplace_back(node_at(index));
     Module::shared module = std::make_shared<Module>();
     module->load(g, outputs);
     module->sort_inputs(inputs);
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 4519f22..c874c4f 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -135,9 +135,11 @@ namespace ts {
             read_size += bubble.externalize(stream);
             // .2 read index
             read_size += binio::read<uint32_t>(stream, size_buffer);
-            std::vector<uint32_t> node_input_index(size_buffer);
-            for (auto &input_index : node_input_index) {
+            std::vector<uint32_t> node_input_index;
+            for (uint32_t j = 0; j < size_buffer; ++j) {
+                uint32_t input_index = 0;
                 read_size += binio::read<uint32_t>(stream, input_index);
+                node_input_index.push_back(input_index);
             }
             nodes.emplace_back(std::make_pair(g.make(bubble), node_input_index));
         }
@@ -145,6 +147,9 @@ namespace ts {
         for (auto &node : nodes) {
             std::vector<Node> inputs;
             for (auto index : node.second) {
+                if (index >= nodes.size()) {
+                    TS_LOG_ERROR << "Node input index " << index << " out of range(" << nodes.size() << ")" << eject;
+                }
                 inputs.emplace_back(nodes[index].first);
             }
             Node::Link(node.first, inputs);
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..76dc089 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -285,9 +285,11 @@ namespace ts {
         uint32_t size_buffer = 0;
         size_t read_size = 0;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        list.resize(size_buffer);
-        for (auto &elem : list) {
+        list.clear();
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            uint32_t elem = 0;
             read_size += binio::read<uint32_t>(stream, elem);
+            list.push_back(elem);
         }
         return read_size;
     }
@@ -315,10 +317,16 @@ namespace ts {
         read_size += externalize_graph(stream, g);
         const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
         // x.1 convert inputs and outputs
+        auto node_at = [&](uint32_t index) {
+            if (index >= nodes.size()) {
+                TS_LOG_ERROR << "Module node index " << index << " out of range(" << nodes.size() << ")" << eject;
+            }
+            return nodes[index];
+        };
         std::vector<Node> inputs;
-        for (auto index : input_index) inputs.emplace_back(nodes[index]);
+        for (auto index : input_index) inputs.emplace_back(node_at(index));
         std::vector<Node> outputs;
-        for (auto index : output_index) outputs.emplace_back(nodes[index]);
+        for (auto index : output_index) outputs.emplace_back(node_at(index));
         Module::shared module = std::make_shared<Module>();
         module->load(g, outputs);
         module->sort_inputs(inputs);
-- 
2.43.0


From ddf0ff6de52c2960f90a8af044ff67277f01822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 119/178] fix: a cyclic graph is rejected instead of walked
 forever

---
 src/module/module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index 76dc089..a7bcf52 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -96,6 +96,7 @@ namespace ts {
         for (auto &node : nodes) {
             nodes_set.insert(node);
         }
+        list_reference_nodes(outputs);  // reject cyclic graph
         // valid graph, get inputs
         std::vector<Node> inputs;
         std::queue<Node> walker;
@@ -220,6 +221,10 @@ namespace ts {
                 } else {
                     auto this_input_depth = depth + 1;
                     if (input_depth_pair->second < this_input_depth) {
+                        // a path without repeated nodes can not be longer than the number of nodes found
+                        if (this_input_depth > int(map_node_depth.size())) {
+                            TS_LOG_ERROR << "Found cyclic reference in graph at: " << input.str() << eject;
+                        }
                         input_depth_pair->second = this_input_depth;
                         node_walker.push_back(input);   // re-walk nodes
                     }
-- 
2.43.0


From 571ec5917b0a2cff9b2c54f89173593a7008c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 120/178] fix: loading a tensor checks its type and extents and
 allocates only for data that is there

---
 src/core/tensor.cpp   | 33 ++++++++++++++++++++++++++++-----
 src/module/bubble.cpp | 12 +++++++++---
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 76ed551..3534713 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -10,8 +10,12 @@
 #include "core/tensor.h"
 #include "utils/assert.h"
 
+#include <algorithm>
+#include <cstring>
+#include <limits>
 #include <numeric>
 #include <mutex>
+#include <vector>
 
 #include <core/device_context.h>
 #include <runtime/runtime.h>
@@ -358,21 +362,38 @@ namespace ts {
         uint8_t dtype_buffer;
         read_size += binio::read<uint8_t >(stream, dtype_buffer);
         dtype = DTYPE(dtype_buffer);
-        TS_AUTO_CHECK(dtype >= 0);
+        TS_CHECK(dtype >= VOID && dtype <= SINK8Q7) << "Unknown data type: " << int(dtype_buffer) << eject;
         // 1.2 read sizes
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
         shape.resize(size_buffer);
         for (size_t i = 0; i < shape.size(); ++i) {
             read_size += binio::read<uint32_t>(stream, size_buffer);
+            TS_CHECK(size_buffer <= uint32_t(std::numeric_limits<int32_t>::max()))
+                << "Tensor extent out of range: " << size_buffer << eject;
             shape[i] = size_buffer;
         }
         // 1.x set proto
         proto = Tensor::Prototype(dtype, shape);
 
         // 2. read memory
-        memory = controller->alloc(size_t(proto.count()) * proto.type_bytes());
-        read_size += binio::read<char>(stream, memory.data<char>(), memory.size());
+        const auto memory_size = size_t(proto.count()) * proto.type_bytes();
+        const size_t block_size = 1024 * 1024;
+        if (memory_size <= block_size) {
+            memory = controller->alloc(memory_size);
+            read_size += binio::read<char>(stream, memory.data<char>(), memory_size);
+        } else {
+            // read block by block, memory is only allocated for data that is really there
+            std::vector<char> buffer;
+            while (buffer.size() < memory_size) {
+                auto pos = buffer.size();
+                auto step = std::min(block_size, memory_size - pos);
+                buffer.resize(pos + step);
+                read_size += binio::read<char>(stream, buffer.data() + pos, step);
+            }
+            memory = controller->alloc(memory_size);
+            std::memcpy(memory.data<char>(), buffer.data(), memory_size);
+        }
         return read_size;
     }
 
@@ -390,11 +411,13 @@ namespace ts {
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        std::vector<Tensor> fields(size_buffer);
-        for (auto &tensor : fields) {
+        std::vector<Tensor> fields;
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            Tensor tensor;
             Memory cpu_memory;
             read_size += externalize_prototype_memory(stream, tensor.m_proto, cpu_memory);
             tensor.m_memory = SyncMemory(cpu_memory);
+            fields.emplace_back(std::move(tensor));
         }
         this->pack(fields);
         return read_size;
diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..b28af73 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -4,6 +4,7 @@
 
 #include "module/bubble.h"
 
+#include <algorithm>
 #include <unordered_map>
 #include <unordered_set>
 #include <cstdint>
@@ -160,9 +161,14 @@ namespace ts {
         // 1.1 read name length
         read_size += binio::read<uint32_t>(stream, size_buffer);
         // 1.2 read name
-        std::vector<char> string_buffer(size_buffer);
-        read_size += binio::read<char>(stream, string_buffer.data(), size_buffer);
-        name = std::string(string_buffer.begin(), string_buffer.end());
+        const uint32_t block_size = 64 * 1024;
+        name.clear();
+        while (name.size() < size_buffer) {
+            auto pos = name.size();
+            auto step = std::min<size_t>(block_size, size_buffer - pos);
+            name.resize(pos + step);
+            read_size += binio::read<char>(stream, &name[pos], step);
+        }
         // 2. read param's value
         read_size += value.externalize(stream);
         return read_size;
-- 
2.43.0


From 9b85a468ecf599c31a9d0b4da48202936d0c506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 121/178] fix: packing no fields empties the tensor

---
 src/core/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 3534713..8d261cc 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -258,6 +258,7 @@ namespace ts {
         if (fields.empty()) {
             this->m_memory = make_smart<TensorMemory>();
             this->m_proto = Prototype();
+            this->m_fields.clear();
             return;
         }
         this->m_memory = fields[0].m_memory;
-- 
2.43.0


From c3762d759516e9b94d8546b46367b11c381af185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 122/178] fix: StringStreamWriter::str sets the buffer

---
 src/module/io/sstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 177abbf..11aea0a 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -45,7 +45,7 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStreamWriter::str(const StringStreamWriter::string &buffer) {
-        m_stream.str();
+        m_stream.str(buffer);
     }
 
     StringStream::string StringStream::str() const {
-- 
2.43.0


From 2481bb13029407b3224bfb58d604ab90798aeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 123/178] fix: moving or re-reading a bubble takes its shape
 along

---
 src/module/bubble.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index b28af73..5038bea 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -40,6 +40,7 @@ namespace ts {
     Bubble::self &Bubble::operator=(self &&other) TS_NOEXCEPT {
         this->m_op = std::move(other.m_op);
         this->m_name = std::move(other.m_name);
+        this->m_shape = other.m_shape;
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
         return *this;
@@ -185,6 +186,7 @@ namespace ts {
 
     size_t Bubble::externalize(StreamReader &stream) {
         m_params.clear();
+        m_shape.clear();
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-- 
2.43.0


From 4f8c01ec2e8cb12b862cb459a9453f1c302b582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 124/178] fix: module inputs of a cyclic graph are rejected too

---
 src/module/module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index a7bcf52..8105706 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -146,6 +146,7 @@ namespace ts {
                 TS_LOG_ERROR << "The sorted inputs must content " << had_input.str() << eject;
             }
         }
+        list_reference_nodes(inputs);  // reject cyclic graph
         m_inputs = inputs;
     }
 
-- 
2.43.0


From f2b6105baf184b3abbcb0a88025c21d54d1a9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 125/178] fix: packing weights makes new constants and leaves
 unsupported ones alone

---
 .../option/pack_translator_option.cpp         | 101 +++++++++---------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..94a1a57 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -57,76 +57,60 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     if (op_name == name::layer::gemm()) {
         auto name = node.bubble().name();
         auto inputs = node.inputs();
+        if (inputs.size() != 3) {
+            Node::Link(translated_node, node.inputs());
+            return true;
+        }
         auto A_node = inputs[0],B_node = inputs[1],C_node = inputs[2];
 
-        float alpha = tensor::to_float(node.bubble().get(name::alpha));
-        float beta = tensor::to_float(node.bubble().get(name::beta));
-        bool transA = tensor::to_bool(node.bubble().get(name::transA));
-        bool transB = tensor::to_bool(node.bubble().get(name::transB));
+        float alpha = node.bubble().has(name::alpha) ? tensor::to_float(node.bubble().get(name::alpha)) : 1.0f;
+        float beta = node.bubble().has(name::beta) ? tensor::to_float(node.bubble().get(name::beta)) : 1.0f;
+        bool transA = node.bubble().has(name::transA) && tensor::to_bool(node.bubble().get(name::transA));
+        bool transB = node.bubble().has(name::transB) && tensor::to_bool(node.bubble().get(name::transB));
+
+        auto is_const_matrix = [](const Node &matrix) {
+            if (matrix.bubble().op() != Bubble::Const || !matrix.bubble().has(name::value)) return false;
+            auto value = matrix.bubble().get(name::value);
+            return value.dtype() == FLOAT32 && value.dims() == 2;
+        };
+        bool const_A = is_const_matrix(A_node);
+        bool const_B = is_const_matrix(B_node);
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        if ((!const_A && !const_B) || (!const_A && transA) || (!const_B && transB)) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
 
-        //transpose const if trans is true
-        auto A_trans_node = A_node;
-        auto B_trans_node = B_node;
-        if (A_node.bubble().op() == Bubble::Const && transA) {
-            auto A_tensor = A_node.bubble().get(name::value);
-            auto dtype = A_tensor.dtype();
-            auto shape = A_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(A_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
-            A_trans_node.bubble().set(name::value, transposed);
-        }
-
-        if (B_node.bubble().op() == Bubble::Const && transB) {
-            auto B_tensor = B_node.bubble().get(name::value);
-            auto dtype = B_tensor.dtype();
-            auto shape = B_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(B_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
-            B_trans_node.bubble().set(name::value, transposed);
-        }
+        //transpose const if trans is true, the constant may be shared, so make a new one
+        auto transpose_const = [](const Node &matrix) {
+            auto tensor = matrix.bubble().get(name::value);
+            auto shape = tensor.sizes();
+            Tensor transposed(FLOAT32, Shape({ shape[1], shape[0] }));
+            cpu::math<float, float>::matrix_transpose(tensor.data<float>(), transposed.data<float>(), shape[0], shape[1]);
+            auto transposed_node = bubble::bubble(matrix.bubble());
+            transposed_node.bubble().set(name::value, transposed);
+            return transposed_node;
+        };
+        auto A_trans_node = transA ? transpose_const(A_node) : A_node;
+        auto B_trans_node = transB ? transpose_const(B_node) : B_node;
 
         auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_trans_node });
 
-        auto alpha_node = bubble::data(name + "_alpha", node.bubble().get(name::alpha));
+        auto alpha_node = bubble::data(name + "_alpha", tensor::from<float>(alpha));
         auto alpha_mul_node = bubble::op(name + "_alpha_mul", name::layer::mul(), { alpha_node, inner_prod_node });
 
-        auto beta_node = bubble::data(name + "_beta", node.bubble().get(name::beta));
+        auto beta_node = bubble::data(name + "_beta", tensor::from<float>(beta));
         auto beta_mul_node = bubble::op(name + "_beta_mul", name::layer::mul(), { beta_node, C_node });
 
-        if (ts::near(beta, float(0))) {
-            if (ts::near(alpha, float(1)))
+        if (beta == 0) {
+            if (alpha == 1)
                 translated_node = inner_prod_node;
             else
                 translated_node = alpha_mul_node;
         }
         else {
-            if (ts::near(alpha, float(1))) {
+            if (alpha == 1) {
                 auto add_node = bubble::op(name + "_add", name::layer::add(), { inner_prod_node, beta_mul_node });
                 translated_node = add_node;
             }
@@ -140,6 +124,10 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
     auto inputs = node.inputs();
+    if (inputs.size() < (op_name == name::layer::conv2d_v2() ? 3 : 2)) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
     auto kernel_node = inputs[1];
     if (op_name == name::layer::conv2d() ||op_name == name::layer::inner_prod()) {
         kernel_node = inputs[1];
@@ -148,7 +136,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         kernel_node = inputs[2];
     }
 
-    if (kernel_node->op() != Bubble::Const) {
+    if (kernel_node->op() != Bubble::Const || !kernel_node->has(name::value)) {
         Node::Link(translated_node, node.inputs());
         return true;
     }
@@ -157,6 +145,14 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto kernel_shape = kernel_tensor.sizes();
     auto kernel_type = kernel_tensor.dtype();
 
+    // not packed: types without packing support, wrong ranks, which the operator itself reports, and packed ones
+    const size_t kernel_dims = op_name == name::layer::inner_prod() ? 2 : 4;
+    if (kernel_type != FLOAT32 || kernel_shape.size() != kernel_dims
+        || (node.bubble().has(name::kernel_packed) && tensor::to_bool(node.bubble().get(name::kernel_packed)))) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     //winograd_check
 #ifdef TS_ON_ARM
     ArgParser parser;
@@ -235,7 +231,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // the kernel may be shared by other nodes or compiled again, so pack into a new node
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From 6ee0d39cefc31bb8d9c13b55b4a7727c230d831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 126/178] fix: fixed point numbers compute and compare as
 signed values

---
 include/core/sink.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/core/sink.h b/include/core/sink.h
index b8b5d60..590cb6b 100644
--- a/include/core/sink.h
+++ b/include/core/sink.h
@@ -29,8 +29,8 @@ namespace ts {
         static _T Min();
     };
 
-#define TS_DEFINE_NUMBER_MAX(_T, value) template <> _T number<_T>::Max() { return (value); }
-#define TS_DEFINE_NUMBER_MIN(_T, value) template <> _T number<_T>::Min() { return (value); }
+#define TS_DEFINE_NUMBER_MAX(_T, value) template <> inline _T number<_T>::Max() { return (value); }
+#define TS_DEFINE_NUMBER_MIN(_T, value) template <> inline _T number<_T>::Min() { return (value); }
 
     TS_DEFINE_NUMBER_MAX(int8_t, INT8_MAX)
     TS_DEFINE_NUMBER_MIN(int8_t, INT8_MIN)
@@ -103,7 +103,7 @@ namespace ts {
     public: \
         using _COMMON_T = _T; \
         static _FIXED_T ToFixed(_COMMON_T value, int _Q) { \
-            auto fixed = top_number(value) << _Q; \
+            auto fixed = top_number(value) * (top_number(1) << _Q); \
             return _FIXED_T(fixed); \
         } \
         static _COMMON_T ToCommon(_FIXED_T value, int _Q) { \
@@ -117,7 +117,7 @@ namespace ts {
     public: \
         using _COMMON_T = _T; \
         static _FIXED_T ToFixed(_COMMON_T value, int _Q) { \
-            auto fixed = top_number(value) << _Q; \
+            auto fixed = top_number(value) * (top_number(1) << _Q); \
             auto max = top_number(number<_FIXED_T>::Max()); \
             auto min = top_number(number<_FIXED_T>::Min()); \
             return _FIXED_T(fixed > max ? max : (fixed < min ? min : fixed)); \
@@ -246,7 +246,7 @@ namespace ts {
     sink<_T, _Q> operator-(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = _DS(lhs.value) - _DS(rhs.value);
+        auto fixed = _DS(_S(lhs.value)) - _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -260,7 +260,7 @@ namespace ts {
     sink<_T, _Q> operator+(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = _DS(lhs.value) + _DS(rhs.value);
+        auto fixed = _DS(_S(lhs.value)) + _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -279,7 +279,7 @@ namespace ts {
     sink<_T, _Q> operator*(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = ((_DS)(lhs.value) * (_DS)(rhs.value)) >> ((_Q) + (_Q) - (_Q));
+        auto fixed = (_DS(_S(lhs.value)) * _DS(_S(rhs.value))) >> ((_Q) + (_Q) - (_Q));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -293,7 +293,7 @@ namespace ts {
     sink<_T, _Q> operator/(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = rhs.value == 0 ? sink<_T, _Q>::Max().value : (((_DS)lhs.value) << ((_Q) + (_Q) - (_Q))) / rhs.value;
+        auto fixed = rhs.value == 0 ? _DS(_S(sink<_T, _Q>::Max().value)) : (_DS(_S(lhs.value)) * (_DS(1) << _Q)) / _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -304,16 +304,28 @@ namespace ts {
     }
 
     template <typename _T, int _Q>
-    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value < rhs.value; }
+    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) < _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value > rhs.value; }
+    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) > _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value <= rhs.value; }
+    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) <= _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value >= rhs.value; }
+    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) >= _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
     bool operator==(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value == rhs.value; }
-- 
2.43.0


From 9851783b634c5825392ec8f47b084bc454ad7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 127/178] fix: half precision conversion of subnormal values

---
 include/core/ieee754_float.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/core/ieee754_float.h b/include/core/ieee754_float.h
index 5b36157..a29c878 100644
--- a/include/core/ieee754_float.h
+++ b/include/core/ieee754_float.h
@@ -121,17 +121,32 @@ namespace ts {
 
             auto shift_left = int64_t(fraction) - int64_t(other.fraction);
             auto part_sign = (other.value_sign() << (W - 1));
+            auto other_fraction = other.value_fraction();
+            auto other_exponent = other.value_exponent();
+            if (other_exponent == -int64_t(other.bias)) {
+                // subnormal number has no hidden bit, normalize it first
+                ++other_exponent;
+                while ((other_fraction >> other.fraction) == 0) {
+                    other_fraction <<= 1;
+                    --other_exponent;
+                }
+                other_fraction &= other.mask_fraction().code;
+            }
             auto part_fraction = shift_left > 0
-                                 ? (other.value_fraction() << shift_left)
-                                 : (other.value_fraction() >> -shift_left);
-            auto origin_exponent = other.value_exponent() + bias;
+                                 ? (other_fraction << shift_left)
+                                 : (other_fraction >> -shift_left);
+            auto origin_exponent = other_exponent + int64_t(bias);
             // read url: https://baike.baidu.com/item/IEEE%20754/3869922?fr=aladdin
             // following code can make NaN number to max or min number
             constexpr auto max_exponent = (decltype(origin_exponent)(1) << exponent) - 2;
             constexpr auto max_fraction = (decltype(part_fraction)(1) << fraction) - 1;
-            if (origin_exponent < decltype(origin_exponent)(0)) {
+            if (origin_exponent <= decltype(origin_exponent)(0)) {
+                // subnormal number, the hidden bit becomes part of fraction
+                auto shift_right = 1 - origin_exponent;
+                part_fraction |= decltype(part_fraction)(1) << fraction;
+                part_fraction = shift_right > int64_t(fraction) ? 0 : part_fraction >> shift_right;
+                if (part_fraction == 0) part_fraction = 1;  // smallest float
                 origin_exponent = 0;
-                part_fraction = 1;  // smallest float
             } else if (origin_exponent > max_exponent) {
                 origin_exponent = max_exponent;
                 part_fraction = max_fraction;
-- 
2.43.0


From 5db7fd9ccc8dce2bb844ee69fef0b97cdb67f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 128/178] fix: AES_init_ctx_iv completes a short key

---
 src/encryption/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encryption/aes.cpp b/src/encryption/aes.cpp
index b6f8ee9..545f67d 100644
--- a/src/encryption/aes.cpp
+++ b/src/encryption/aes.cpp
@@ -264,7 +264,7 @@ void AES_init_ctx_iv(struct AES_ctx* ctx, const uint8_t* key, uint32_t key_lengt
       }
   }
 
-  KeyExpansion(ctx->RoundKey, key);
+  KeyExpansion(ctx->RoundKey, default_key);
   memcpy (ctx->Iv, default_iv, AES_BLOCKLEN);
 }
 
-- 
2.43.0


From d1d101ed617420bee6cbd694536911b9d28fce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 129/178] fix: wrong padding of an encrypted file is an error

---
 src/encryption/aes_fstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..a1483d0 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,13 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                auto npadding = (int)(m_master[AES_BLOCKLEN - 1]);
+                if(npadding < 1 || npadding > AES_BLOCKLEN) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= npadding;
             } 
 
             
-- 
2.43.0


From 82a9832fdf4d664a8195541d0cca09983b0e1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 130/178] fix: closing an encrypted file reports failed writes

---
 src/encryption/aes_fstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index a1483d0..94dd70d 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -174,7 +174,11 @@ namespace ts {
     }
 
     AESFileStreamWriter::~AESFileStreamWriter() {
-         close();
+        try {
+            close();
+        } catch (const Exception &) {
+            // the error has been logged, and destructor can not throw
+        }
     }
 
     void AESFileStreamWriter::close() {
@@ -200,6 +204,9 @@ namespace ts {
         m_stream.write(reinterpret_cast<const char *>(buf), AES_BLOCKLEN);
         m_master_datalen = 0;
         m_stream.close();
+        if(m_stream.fail()) {
+            TS_LOG_ERROR << "write mode file failed!" << eject;
+        }
     }
 
 }
-- 
2.43.0


From 84c6b1e5402cc6de6569a37ba19f6e56cba4eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 131/178] fix: operand stack rejects positions outside of its
 base and top

---
 src/runtime/stack.cpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/runtime/stack.cpp b/src/runtime/stack.cpp
index 55c4fbc..9aa80f4 100644
--- a/src/runtime/stack.cpp
+++ b/src/runtime/stack.cpp
@@ -7,7 +7,21 @@
 
 namespace ts {
 
-#define relative2absolute(i) ((i) >= 0 ? m_base + (i) : m_stack.size() + (i))
+    /**
+     * Translate stack[i] to index in the whole stack, items below base are out of range
+     * @param i bottom_up_index if i >= 0, top_down_index if i < 0
+     * @param base bottom of range
+     * @param size number of items in the whole stack
+     * @param end number of acceptable positions beyond the last item
+     * @return absolute index
+     */
+    static inline size_t relative2absolute(int i, size_t base, size_t size, size_t end = 0) {
+        auto absolute = i >= 0 ? int64_t(base) + i : int64_t(size) + i;
+        if (absolute < int64_t(base) || absolute >= int64_t(size + end)) {
+            TS_LOG_ERROR << "Stack index out of range: " << i << ", with size = " << int64_t(size) - int64_t(base) << eject;
+        }
+        return size_t(absolute);
+    }
 
     Stack::Stack(const MemoryDevice &device)
             : Stack(device, DynamicSyncMemoryController::Make(device)) {}
@@ -61,45 +75,47 @@ namespace ts {
         return this->push(tensor.clone(this->m_controller, device));
     }
 
-    Tensor *Stack::index(int i) { return &this->m_stack.at(relative2absolute(i)); }
+    Tensor *Stack::index(int i) { return &this->m_stack[relative2absolute(i, m_base, m_stack.size())]; }
 
-    const Tensor *Stack::index(int i) const { return &this->m_stack.at(relative2absolute(i)); }
+    const Tensor *Stack::index(int i) const { return &this->m_stack[relative2absolute(i, m_base, m_stack.size())]; }
 
-    Tensor *Stack::top() { return &this->m_stack.back(); }
+    Tensor *Stack::top() { return this->index(-1); }
 
-    const Tensor *Stack::top() const { return &this->m_stack.back(); }
+    const Tensor *Stack::top() const { return this->index(-1); }
 
     void Stack::pop(size_t pop_size) {
+        TS_AUTO_CHECK(pop_size <= this->size());
         auto it_end = this->m_stack.end();
         auto it_beg = it_end - pop_size;
         this->m_stack.erase(it_beg, it_end);
     }
 
-    void Stack::pop() { this->m_stack.pop_back(); }
+    void Stack::pop() { this->pop(1); }
 
     size_t Stack::size() const { return m_stack.size() - m_base; }
 
     void Stack::erase(int i) {
-        auto it = this->m_stack.begin() + relative2absolute(i);
+        auto it = this->m_stack.begin() + relative2absolute(i, m_base, m_stack.size());
         this->m_stack.erase(it);
     }
 
     void Stack::erase(int beg, int end) {
-        auto beg_it = this->m_stack.begin() + relative2absolute(beg);
-        auto end_it = this->m_stack.begin() + relative2absolute(end);
-        // TS_AUTO_CHECK(end_it - beg_it >= 0);
+        auto beg_it = this->m_stack.begin() + relative2absolute(beg, m_base, m_stack.size(), 1);
+        auto end_it = this->m_stack.begin() + relative2absolute(end, m_base, m_stack.size(), 1);
+        TS_AUTO_CHECK(end_it - beg_it >= 0);
         this->m_stack.erase(beg_it, end_it);
     }
 
     size_t Stack::base() const { return m_base; }
 
     size_t Stack::rebase(size_t new_base) {
+        TS_AUTO_CHECK(new_base <= m_stack.size());
         std::swap(m_base, new_base);
         return new_base;
     }
 
     void Stack::push_base(int i) {
-        this->m_base_stack.push(this->rebase(relative2absolute(i)));
+        this->m_base_stack.push(this->rebase(relative2absolute(i, m_base, m_stack.size(), 1)));
     }
 
     void Stack::pop_base() {
-- 
2.43.0


From c483102b153d2f05d5bd899d1c188bbef48b25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 132/178] fix: a cloned image filter keeps the steps of the
 original

---
 src/runtime/image_filter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..2e28e4b 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -14,6 +14,7 @@
 #include "runtime/workbench.h"
 
 #include <numeric>
+#include <unordered_map>
 
 namespace ts {
 
@@ -207,9 +208,17 @@ namespace ts {
 
     ImageFilter::ImageFilter(const ImageFilter::Implement &other) {
         m_impl->m_computing_device = other.m_computing_device;
-        this->clear();
-        m_impl->m_program = other.m_program->clone();
-        m_impl->m_compiled = true;
+        m_impl->m_graph = std::make_shared<Graph>();
+        std::unordered_map<Node, Node> cloned_nodes;
+        for (auto &node : other.m_graph->nodes()) {
+            std::vector<Node> inputs;
+            for (auto &input : node.inputs()) inputs.emplace_back(cloned_nodes.at(input));
+            auto cloned_node = m_impl->m_graph->make(node.bubble());
+            Node::Link(cloned_node, inputs);
+            cloned_nodes.insert(std::make_pair(node, cloned_node));
+        }
+        if (other.m_program != nullptr) m_impl->m_program = other.m_program->clone();
+        m_impl->m_compiled = other.m_compiled;
     }
 
     const Graph &ImageFilter::graph() const {
-- 
2.43.0


From 69894f1e6a95e305ff76b4a43a8ed781d5ffc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:43 +0000
Subject: [PATCH 133/178] fix: binding a null filter removes the filter of the
 input

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..f27734a 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -234,6 +234,10 @@ namespace ts {
         if (slot < 0 || slot >= m_desktop->input_count()) {
             TS_LOG_ERROR << "Input index out of range. with index=" << slot << eject;
         }
+        if (filter == nullptr) {
+            m_desktop->bind_filter(slot, nullptr);
+            return;
+        }
         BindWorkbenchRuntime _bind_runtime(*this);
         filter->compile();
         m_desktop->bind_filter(slot, filter->program());
-- 
2.43.0


From 5ae8ee12d67219bbb65c7bf35b63003bef88576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 134/178] fix: splitting a range into bins is exact for every
 range

---
 src/utils/box.cpp | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/utils/box.cpp b/src/utils/box.cpp
index 3e96975..2cc4cf8 100644
--- a/src/utils/box.cpp
+++ b/src/utils/box.cpp
@@ -8,7 +8,6 @@
 #include <algorithm>
 #include <memory>
 #include <cmath>
-#include <cfenv>
 #include <ctime>
 #include <iomanip>
 #include <sstream>
@@ -55,51 +54,34 @@ namespace ts {
 #undef __EDIT_DIST
     }
 
-    static int safe_ceil(double x) {
-        int result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = int(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
-    }
-
     std::vector<std::pair<int, int>> split_bins(int first, int second, int bins) {
         if (second <= first) return {};
         if (bins <= 1) return {{first, second}};
-        auto step = safe_ceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
-        auto anchor = first;
+        // the number of elements and the step may not fit in int
+        auto count = int64_t(second) - int64_t(first);
+        auto step = (count + bins - 1) / bins;
+        int64_t anchor = first;
 
         std::vector<std::pair<int, int>> result_bins;
         while (anchor + step < second) {
-            result_bins.emplace_back(std::make_pair(anchor, anchor + step));
+            result_bins.emplace_back(std::make_pair(int(anchor), int(anchor + step)));
             anchor += step;
         }
         if (anchor < second) {
-            result_bins.emplace_back(std::make_pair(anchor, second));
+            result_bins.emplace_back(std::make_pair(int(anchor), second));
         }
         return result_bins;
     }
 
-    static long safe_lceil(double x) {
-        long result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = long(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
-    }
-
     std::vector<std::pair<size_t, size_t>> lsplit_bins(size_t first, size_t second, size_t bins) {
         if (second <= first) return {};
         if (bins <= 1) return {{first, second}};
-        auto step = safe_lceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
+        auto count = second - first;
+        auto step = count / bins + (count % bins ? 1 : 0);
         auto anchor = first;
 
         std::vector<std::pair<size_t, size_t >> result_bins;
-        while (anchor + step < second) {
+        while (second - anchor > step) {
             result_bins.emplace_back(std::make_pair(anchor, anchor + step));
             anchor += step;
         }
-- 
2.43.0


From f2f7f3953c376c519b9a2cf786252b849e8ef0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 135/178] fix: destroying a thread can miss its worker and wait
 for ever

---
 src/runtime/inside/thread_pool.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..9226b08 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,8 +13,12 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
-        task_cond.notify_all();
+        {
+            // the worker must not miss the notification between its check and its wait
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+            task_cond.notify_all();
+        }
         core.join();
     }
 
-- 
2.43.0


From c978dd1ee963dbe2b7ad4c31dc5737d9d91dbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 136/178] fix: a thread drops its pending task when given
 another one

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 9226b08..d4368af 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -24,6 +24,7 @@ namespace ts {
 
     void Thread::run(int signet, const Thread::task_type &task, const Thread::after_task_type &after_task) {
         std::unique_lock<std::mutex> locker(task_mutex);
+        while (this->task) task_cond.wait(locker);  // never drop the task submitted before
         this->signet = signet;
         this->task = task;
         this->after_task = after_task;
-- 
2.43.0


From 64e872203b0027af18f516ff59b62c9cfc93233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 137/178] fix: threads and pools report busy while tasks run

---
 include/runtime/inside/thread_pool.h |  1 +
 src/runtime/inside/thread_pool.cpp   | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/runtime/inside/thread_pool.h b/include/runtime/inside/thread_pool.h
index 76a0b2b..64aa5d1 100644
--- a/include/runtime/inside/thread_pool.h
+++ b/include/runtime/inside/thread_pool.h
@@ -53,6 +53,7 @@ namespace ts {
         std::mutex task_mutex;              ///< mutex control each fire
         std::condition_variable task_cond;  ///< condition to tell if fire finished
         std::atomic<bool> is_running;       ///< object only work when dry is true
+        std::atomic<bool> is_busy;          ///< if there is a task given and not finished
 
         int signet;                         ///< the argument to call `bullet(signet)` and `shell(signet)`
         task_type task = nullptr;          ///< main function call in thread
diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index d4368af..8b858d3 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -8,7 +8,7 @@
 namespace ts {
 
     Thread::Thread()
-            : is_running(true), task(nullptr), after_task(nullptr) {
+            : is_running(true), is_busy(false), task(nullptr), after_task(nullptr) {
         this->core = std::thread(&Thread::operating, this);
     }
 
@@ -27,14 +27,13 @@ namespace ts {
         while (this->task) task_cond.wait(locker);  // never drop the task submitted before
         this->signet = signet;
         this->task = task;
+        this->is_busy = task != nullptr;
         this->after_task = after_task;
         task_cond.notify_all();
     }
 
     bool Thread::busy() {
-        if (!task_mutex.try_lock()) return false;
-        bool is_busy = task != nullptr;
-        task_mutex.unlock();
+        // the worker holds the mutex while it is working
         return is_busy;
     }
 
@@ -52,6 +51,7 @@ namespace ts {
             if (after_task) after_task(signet);
             task = nullptr;
             after_task = nullptr;
+            is_busy = false;
             task_cond.notify_all();
         }
     }
@@ -113,10 +113,8 @@ namespace ts {
     }
 
     bool ThreadPool::busy() {
-        if (!running_core_mutex.try_lock()) return false;
-        bool is_busy = this->running_core.size() != this->thread_pool.size();
-        running_core_mutex.unlock();
-        return is_busy;
+        std::unique_lock<std::mutex> locker(running_core_mutex);
+        return this->running_core.size() != this->thread_pool.size();
     }
 
     size_t ThreadPool::size() const {
-- 
2.43.0


From 61fac93eeb0ecb31ea9ce7782f82eacb324ffe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 138/178] fix: an empty thread pool calls the hook after a task

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 8b858d3..1a8e152 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -87,6 +87,7 @@ namespace ts {
     Thread *ThreadPool::run(const Thread::task_type &task, const Thread::after_task_type &after_task) {
         if (thread_pool.size() == 0) {
             task(0);
+            after_task(0);
             return nullptr;
         } else {
             int signet = load();
-- 
2.43.0


From 919dfc73de701e4d664d501d977c4b993af153a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 139/178] fix: HardMemory::dispose leaves no memory, so it also
 leaves no capacity

---
 src/core/hard_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..2615bda 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
-- 
2.43.0


From 4dd2d88b76a3312988fbe817e66dac4ed54c155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 140/178] fix: HardMemory keeps no released memory when a
 resize can not be satisfied

---
 src/core/hard_memory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index 2615bda..e450030 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -65,7 +65,11 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // the old memory is released even if the new one can not be allocated
+            auto old_data = m_data;
+            m_data = nullptr;
+            m_capacity = 0;
+            m_data = m_allocator(m_device.id(), size, old_data, 0);
             m_capacity = size;
         }
     }
-- 
2.43.0


From 5f453b8bf95b5a24ccff54818b230ccd351235b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 141/178] fix: HardMemory move takes over the memory instead of
 sharing and leaking it

---
 src/core/hard_memory.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index e450030..20bd10d 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -86,12 +86,7 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-        MOVE_MEMBER(m_device);
-        MOVE_MEMBER(m_capacity);
-        MOVE_MEMBER(m_data);
-        MOVE_MEMBER(m_allocator);
-#undef MOVE_MEMBER
+        this->swap(other);
         return *this;
     }
 }
-- 
2.43.0


From 69e45514ab0e7b3b1a75148fc61a167a81872267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 142/178] fix: StackMemoryController allocates the memory asked
 for

---
 src/memory/flow.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/flow.cpp b/src/memory/flow.cpp
index 8963013..edc909c 100644
--- a/src/memory/flow.cpp
+++ b/src/memory/flow.cpp
@@ -164,6 +164,8 @@ namespace ts {
             m_memory = std::make_shared<HardMemory>(device);
         }
 
+        Memory alloc(size_t size) const { return Memory(m_memory->device(), size); }
+
         StackMemoryBlock alloc_block(size_t size);
         void free_block(StackMemoryBlock block);
 
@@ -178,6 +180,6 @@ namespace ts {
     }
 
     Memory StackMemoryController::alloc(size_t size) {
-        return Memory();
+        return m_impl->alloc(size);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7467a38f8fdaefaf4e2d75f7cbb2b56e1506d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 143/178] fix: Vat swap and move carry the allocator the pots
 came from

---
 src/memory/orz/vat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..b941f73 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -95,6 +95,8 @@ namespace ts {
     {
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        std::swap(this->m_allocator, that.m_allocator);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 79ae7ac5cc9875345eb3ee49be56911130afa9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 144/178] fix: a constant output stays valid after its
 workbench is gone

---
 src/runtime/program.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..7dbe805 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -188,7 +188,9 @@ namespace ts {
     }
 
     Tensor Program::data_segment(int index) const {
-        return this->m_data_segment->index(index)->weak();
+        // a view has its own (thread safe) share of the memory, so an output may outlive the program
+        auto data = this->m_data_segment->index(index);
+        return data->view(data->device());
     }
 
     Program::shared Program::input_filter(int slot) const {
-- 
2.43.0


From 15244fa750048e1b6303b666ba539fd708934318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 145/178] fix: 16 bit integer types are named after their width

---
 include/core/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From 5c76cba10fff1e5871f54b4790f072cc29e486c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 146/178] fix: clone copies all of a tensor beyond 2 GB

---
 src/core/tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 8d261cc..32c2844 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -163,7 +163,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, bytes_of(value.m_proto));
             value = dolly;
         }
         Tensor dolly;
@@ -177,7 +177,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, bytes_of(value.m_proto));
             value = dolly;
         }
         Tensor dolly;
@@ -191,7 +191,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto, device);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, bytes_of(value.m_proto));
             value = dolly;
         }
         Tensor dolly;
-- 
2.43.0


From 8b77c1e0f80341cd37056cbd8f4080e43126447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 147/178] fix: reshape to an unknown extent rejects shapes with
 too many elements

---
 src/core/tensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 32c2844..841c43b 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -237,8 +237,8 @@ namespace ts {
             }
         }
         if (fixed_index >= 0) {
-            auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
-            auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            auto up = this->count();
+            auto down = Prototype::count(fixed_shape);
             if (down == 0) {
                 TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
             }
-- 
2.43.0


From e495321629feb82be92ae2c0545d47c1253ee4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 148/178] fix: flatten rejects extents that are out of range

---
 src/core/tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 841c43b..58c3a4b 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -513,7 +513,7 @@ namespace ts {
         if (need_size < x_size) {
             auto &size = x.sizes();
             std::vector<int> shape(size.begin(), size.begin() + need_size);
-            shape.back() = std::accumulate(size.begin() + m_dim, size.end(), 1, std::multiplies<int>());
+            shape.back() = Tensor::Prototype::count(Shape(size.begin() + m_dim, size.end()));
             return std::move(shape);
         } else if (need_size > x_size) {
             std::vector<int> ones(need_size - x_size, 1);
-- 
2.43.0


From 5f8ac1bbb88d0de9abf26d69e8ef196214f6a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 149/178] fix: slice reaches elements beyond 2 GB

---
 src/core/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 58c3a4b..a4fb2be 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -662,9 +662,8 @@ namespace ts {
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
         TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
-        auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
-        width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
+        auto width = size_t(Prototype::count(slice_shape)) * size_t(this->proto().type_bytes());
         Memory slice_memory(this->device(), this->data<char>() + i * width, width);
         return Tensor(slice_memory, Tensor::Prototype(this->dtype(), slice_shape));
     }
@@ -673,8 +672,7 @@ namespace ts {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
         TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && end <= sizes[0]);
-        auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
-        width *= this->proto().type_bytes();
+        auto width = size_t(Prototype::count(Shape(sizes.begin() + 1, sizes.end()))) * size_t(this->proto().type_bytes());
 
         auto batch = end - beg;
         Shape slice_shape = sizes;
-- 
2.43.0


From 4a367616dec81ed9a82cece0fda4061b08322f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 150/178] fix: Module::Route keeps the input slot it is
 constructed with

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From bf550c0f56f9e7159b911ed32e395e56ffea0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 151/178] fix: Module::Fusion does not depend on the order of
 its routes

---
 src/module/module.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index 8105706..6b87d5b 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -447,6 +447,7 @@ namespace ts {
 
         std::unordered_map<Node, Node> cloned_nodes;
         std::unordered_map<Node, Node> linked_nodes;
+        std::vector<std::pair<Node, Node>> links;
 
         Graph g;
         ctx::bind<Graph> _bind(g);
@@ -476,8 +477,9 @@ namespace ts {
             set_linked_ins.insert(node_in);
             set_linked_outs.insert(node_out);
 
-            auto copy_out_in = bubble::op(node_in->name(), name::layer::copy(),
-                    clone_graph({node_out}, cloned_nodes, linked_nodes));
+            // linked after all routed inputs are known, so routes may be given in any order
+            auto copy_out_in = g.make(name::layer::copy(), node_in->name());
+            links.emplace_back(copy_out_in, node_out);
 
             cloned_nodes.insert(std::make_pair(node_in, copy_out_in));
             cloned_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
@@ -485,6 +487,10 @@ namespace ts {
             linked_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
         }
 
+        for (auto &link : links) {
+            Node::Link(link.first, clone_graph({link.second}, cloned_nodes, linked_nodes));
+        }
+
         std::vector<Node> inputs;
         std::vector<Node> outputs;
 
-- 
2.43.0


From 160dd7f13336af51f0ff0cc66c38f8bc57dd94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 152/178] fix: constants that are packed or unpacked can be
 compiled

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..08267dd 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -428,7 +428,8 @@ namespace ts {
             const_input_nodes.emplace_back(const_input);
         }
 
-        if (!input_are_const) {
+        // inner instructions (pack and field) are no operators, they only run in programs
+        if (!input_are_const || InstructionCreator::Query(node->op()) != nullptr) {
             if (!build_new_node) {
                 const_node = node;
             } else {
-- 
2.43.0


From e96451581c0a39e6a4d0e02f1d4de924fc89b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:19 +0000
Subject: [PATCH 153/178] fix: a program whose inputs are not needed drops them

---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 08267dd..ef06a48 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -358,7 +358,7 @@ namespace ts {
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
             for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
-- 
2.43.0


From 55c4229ca00c265ec2a45437b345404cab8c3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 154/178] fix: compile options with long words or circular
 device mappings are handled

---
 src/compiler/argparse.cpp | 45 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/compiler/argparse.cpp b/src/compiler/argparse.cpp
index 605a140..9dc9588 100644
--- a/src/compiler/argparse.cpp
+++ b/src/compiler/argparse.cpp
@@ -6,32 +6,28 @@
 
 #include <cctype>
 #include <cwctype>
-#include <regex>
+#include <algorithm>
 
 #include <utils/log.h>
 
 namespace ts {
+    static const char *const SPACES = " \t\n\v\f\r";
+
     static std::string stand1(const std::string &str) {
-        static std::regex regex(R"(^\s*(\S*)\s*$)");
-        std::smatch match;
-        std::string cvt;
-        if(std::regex_match(str, match, regex)) {
-            cvt = match[1];
-        } else {
-            cvt = str;
-        }
+        // no std::regex here: it recurses for every character, a long word overflows the stack
+        auto beg = str.find_first_not_of(SPACES);
+        auto end = str.find_last_not_of(SPACES);
+        std::string cvt = beg == std::string::npos ? std::string() : str.substr(beg, end - beg + 1);
+        if (cvt.find_first_of(SPACES) != std::string::npos) cvt = str;
         std::transform(cvt.begin(), cvt.end(), cvt.begin(), std::towlower);
         return cvt;
     }
 
     static std::string stand2(const std::string &str) {
-        static std::regex regex(R"(^[_-]*([^_-]*)[_-]*$)");
-        std::smatch match;
-        if(std::regex_match(str, match, regex)) {
-            return match[1];
-        } else {
-            return str;
-        }
+        auto beg = str.find_first_not_of("_-");
+        auto end = str.find_last_not_of("_-");
+        auto cvt = beg == std::string::npos ? std::string() : str.substr(beg, end - beg + 1);
+        return cvt.find_first_of("_-") != std::string::npos ? str : cvt;
     }
 
     ArgParser::ArgParser() {
@@ -82,16 +78,16 @@ namespace ts {
     }
 
     void ArgParser::parse(const std::string &args) {
-        static std::regex regex_map(R"(^-[vV]:([^:]*):([^:]*)$)");
-
         auto params = Split(args, " \t\r\n");
-        std::smatch match_v;
         for (auto &param : params) {
             if (param.empty()) continue;
             // check if it's device map
-            if(std::regex_match(param, match_v, regex_map)) {
-                this->m_map_device[stand1(match_v[1])] = stand1(match_v[2]);
-                continue;
+            if (param.size() > 3 && param[0] == '-' && (param[1] == 'v' || param[1] == 'V') && param[2] == ':') {
+                auto sep = param.find(':', 3);
+                if (sep != std::string::npos && param.find(':', sep + 1) == std::string::npos) {
+                    this->m_map_device[stand1(param.substr(3, sep - 3))] = stand1(param.substr(sep + 1));
+                    continue;
+                }
             }
             // is param setting
             set(param);
@@ -100,7 +96,8 @@ namespace ts {
 
     std::string ArgParser::map_device(const std::string &device) {
         auto stand_device = stand1(device);
-        while (true) {
+        // each mapping is followed once at most
+        for (size_t i = 0; i <= this->m_map_device.size(); ++i) {
             auto it = this->m_map_device.find(stand_device);
             if (it != this->m_map_device.end()) {
                 stand_device = it->second;
@@ -108,5 +105,7 @@ namespace ts {
                 return stand2(stand_device);
             }
         }
+        TS_LOG_ERROR << "Device mapping of \"" << device << "\" has no end" << eject;
+        return stand2(stand_device);
     }
 }
-- 
2.43.0


From 1af7014249f9c6899d5359f0381e2eb12b75b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 155/178] fix: relinking a node skips outputs that are gone

---
 include/module/graph.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..8b9de1d 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
-- 
2.43.0


From eb475e6f6c1efe36debbb290023cd1e866290e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 156/178] fix: --float16 leaves the module it translates
 unchanged

---
 .../option/fp16_translator_option.cpp         | 54 ++++++++-----------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..5c47a99 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -102,39 +102,29 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
     Node::Link(translated_node, translated_inputs);
 
     //NOTE:Advance calculations are used to improve accuracy on batch norm
-    if (translated_node.bubble().op() == name::layer::batch_norm()) {
-        bool change_param = false;
-        auto epsilon = translated_node.bubble().get(name::epsilon);
-        auto variance_node = translated_node.inputs()[2];
-        DTYPE dtype = VOID;
-        while (!Bubble::IsEndPoint(variance_node.bubble().op())) {
-            variance_node = variance_node.inputs()[0];
-            if (variance_node.bubble().op() == Bubble::Const) {
-                dtype = variance_node.bubble().get(name::value).dtype();
-                change_param = true;
-            }
-        }
-        if (change_param) {
-            Tensor variance = variance_node.bubble().get(name::value);
-            Tensor epsilon_fp32 = tensor::cast(FLOAT32, epsilon);
-            Tensor variance_fp32 = tensor::cast(FLOAT32, variance);
-            auto epsilon_data = epsilon_fp32.data<float>();
-            auto variance_data = variance_fp32.data<float>();
-
-            for (int i = 0; i < variance.count(); i++) {
-                variance_data[i] += *epsilon_data;
-            }
-            *epsilon_data = 0.f;
-
-            Tensor epsilon_temp = tensor::cast(dtype, epsilon_fp32);
-            Tensor variance_temp = tensor::cast(dtype, variance_fp32);
-            auto test_e = epsilon_temp.data<float>();
-            auto test_v = variance_temp.data<float>();
-            TS_UNUSED(test_e);
-            TS_UNUSED(test_v);
-            translated_node.bubble().set(name::epsilon, epsilon_temp);
-            variance_node.bubble().set(name::value, variance_temp);
+    // the module being translated is shared: its constant is copied, never changed
+    if (translated_node.bubble().op() == name::layer::batch_norm()
+        && inputs.size() > 2 && inputs[2].bubble().op() == Bubble::Const
+        && translated_inputs[2] != inputs[2] // there is a cast
+        && translated_node.bubble().has(name::epsilon)) {
+        auto variance_node = bubble::bubble(inputs[2].bubble());
+        Tensor epsilon = translated_node.bubble().get(name::epsilon);
+        Tensor variance = variance_node.bubble().get(name::value);
+        DTYPE dtype = variance.dtype();
+        Tensor epsilon_fp32 = tensor::clone(FLOAT32, epsilon);
+        Tensor variance_fp32 = tensor::clone(FLOAT32, variance);
+        auto epsilon_data = epsilon_fp32.data<float>();
+        auto variance_data = variance_fp32.data<float>();
+
+        for (int i = 0; i < variance.count(); i++) {
+            variance_data[i] += *epsilon_data;
         }
+        *epsilon_data = 0.f;
+
+        translated_node.bubble().set(name::epsilon, tensor::cast(dtype, epsilon_fp32));
+        variance_node.bubble().set(name::value, tensor::cast(dtype, variance_fp32));
+        Node::Link(translated_inputs[2], {variance_node});
+        Node::Link(translated_node, translated_inputs);
     }
 
     return true;
-- 
2.43.0


From 8ff2f02261c45ae13481e2bdd38594807440789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 157/178] fix: declared input types survive compilation
 whatever the options

---
 src/compiler/option/fp16_translator_option.cpp | 5 ++---
 src/compiler/option/pack_translator_option.cpp | 5 ++---
 src/runtime/image_filter.cpp                   | 2 +-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 5c47a99..256acf5 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -23,9 +23,8 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
+        // a parameter keeps its declared type and shape
+        if (op_name == Bubble::Parameter || op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
         return true;
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 94a1a57..6a349b5 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -31,9 +31,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
+        // a parameter keeps its declared type and shape
+        if (op_name == Bubble::Parameter || op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
         return true;
diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 2e28e4b..69c96a1 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -39,7 +39,7 @@ namespace ts {
         m_impl->m_program.reset();
         m_impl->m_graph = std::make_shared<Graph>();
         ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
-        bubble::param(serial_name(), UINT8, {-1, -1, -1});    // add input param to graph
+        bubble::param(serial_name(), {-1, -1, -1});    // add input param to graph, images may have any type
         m_impl->m_compiled = false;
     }
 
-- 
2.43.0


From c50713274ae8d352471efebf9bf97302946711b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 158/178] fix: a cloned program keeps the names of its inputs
 and outputs

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 7dbe805..8d6d3b3 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From e6e1a2717b07e223647a854a4135169ff193dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 159/178] fix: running hooks without a program reports an error

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index f27734a..adf53c9 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -586,6 +586,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From 20c52e2f7e9b821303d95866c45be83615e94ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:00 +0000
Subject: [PATCH 160/178] fix: hooked runs keep the hooked inputs

---
 src/runtime/workbench.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index adf53c9..a9e0c4a 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -631,7 +631,8 @@ namespace ts {
         });
         ctx::bind<Hook> _hook(hooker);
 
-        this->run();
+        // not run(), which forgets the hooked inputs
+        m_outputs = launch_offline(m_desktop, m_inputs);
     }
 
     const std::string &Workbench::summary() {
-- 
2.43.0


From 2398acbfea0083b01d5d580f9ae948c55ee1b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 161/178] fix: no exception of any type passes the C interface,
 and success leaves no message

---
 src/api/declaration.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..f19748a 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -5,6 +5,7 @@
 #ifndef TENNIS_API_DECLARATION_H
 #define TENNIS_API_DECLARATION_H
 
+#include <exception>
 #include <memory>
 #include "errno.h"
 #include "utils/except.h"
@@ -33,15 +34,24 @@ struct API_TYPE { \
 ts::api::ClearLEM(); \
 try {
 
-#define RETURN_OR_CATCH(ret, cat) \
-return ret; \
-} catch (const Exception &e) { \
+// Anything thrown has to become a message, whatever its type, as nothing may pass the C boundary.
+#define CATCH_ANY(cat) \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
-return cat; \
+cat; \
+} catch (...) { \
+ts::api::SetLEM("Unknown exception."); \
+cat; \
 }
 
+// Calls made meanwhile, by operators of plugins for instance, may have left a message.
+#define RETURN_OR_CATCH(ret, cat) \
+ts::api::ClearLEM(); \
+return ret; \
+CATCH_ANY(return cat)
+
 #define TRY_TAIL \
-} catch (const Exception &) { \
-}
+ts::api::ClearLEM(); \
+CATCH_ANY((void) 0)
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From d107a71619ea3761ccc82b76841e64dd03090384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 162/178] fix: missing arguments of the C interface are
 reported like the others

---
 src/api/common.cpp    | 2 +-
 src/api/module.cpp    | 1 +
 src/api/operator.cpp  | 6 ++++++
 src/api/tensor.cpp    | 1 +
 src/api/workbench.cpp | 3 +++
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
diff --git a/src/api/module.cpp b/src/api/module.cpp
index 6c09270..f4cd9e8 100644
--- a/src/api/module.cpp
+++ b/src/api/module.cpp
@@ -84,6 +84,7 @@ ts_Module *ts_Module_LoadFromStreamV2(void *obj, ts_stream_read *reader, ts_stre
     if (!obj) throw Exception("NullPointerException: @param: 1");
     if (!reader) throw Exception("NullPointerException: @param: 2");
     if (!rewind) throw Exception("NullPointerException: @param: 3");
+    if (!buffer) throw Exception("NullPointerException: @param: 4");
     CStreamReaderV2 stream_reader(obj, reader, rewind);
     std::unique_ptr<ts_Module> module(new ts_Module(
             Module::LoadV2(stream_reader, buffer, buffer_size, Module::SerializationFormat(format))));
diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..78f47a7 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -144,6 +144,8 @@ void ts_Operator_Register(const char *device, const char *op,
                           ts_new_Operator *f_new, ts_free_Operator *f_free,
                           ts_Operator_init *f_init, ts_Operator_infer *f_infer, ts_Operator_run *f_run) {
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
+    if (!op) throw Exception("NullPointerException: @param: 2");
     if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
         TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
     }
@@ -160,6 +162,8 @@ void ts_Operator_Register(const char *device, const char *op,
 
 ts_Tensor *ts_OperatorParams_get(const ts_OperatorParams *dict, const char *param) {
     TRY_HEAD
+    if (!dict) throw Exception("NullPointerException: @param: 1");
+    if (!param) throw Exception("NullPointerException: @param: 2");
     std::string cpp_param(param);
     if (dict->op->has(cpp_param)) {
         std::unique_ptr<ts_Tensor> value(new ts_Tensor(dict->op->get(cpp_param)));
@@ -187,6 +191,8 @@ void ts_Operator_ThrowV2(const char *message, const char *filename, int32_t line
 void ts_Operator_RegisterEx(const char *device, const char *op, ts_new_Operator *f_new, ts_free_Operator *f_free,
                             ts_Operator_init_ex *f_init, ts_Operator_infer *f_infer, ts_Operator_run *f_run) {
     TRY_HEAD
+        if (!device) throw Exception("NullPointerException: @param: 1");
+        if (!op) throw Exception("NullPointerException: @param: 2");
         if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
             TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
         }
diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..e6615c8 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (!shape && shape_len) throw Exception("NullPointerException: @param: 2");
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 0cd6a89..341e391 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -188,6 +188,9 @@ ts_bool ts_Workbench_run_hook(ts_Workbench *workbench, const char **node_names,
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         if (!node_names) throw Exception("NullPointerException: @param: 2");
+        for (int i = 0; i < len; ++i) {
+            if (!node_names[i]) throw Exception("NullPointerException: @param: node_names[" + std::to_string(i) + "]");
+        }
         (*workbench)->run_hook(std::vector<std::string>(node_names, node_names + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
-- 
2.43.0


From 8b6e7990c03b72e2dda93551c960d59fe7a542b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 163/178] fix: negative lengths, sizes and field indices are
 refused by the C interface

---
 src/api/tensor.cpp      | 16 +++++++++++-----
 src/frontend/intime.cpp |  3 +++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index e6615c8..684d508 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -10,13 +10,18 @@
 
 using namespace ts;
 
+static Shape build_shape(const int32_t *shape, int32_t shape_len) {
+    if (shape_len < 0) throw Exception("Shape length must not be negative, got " + std::to_string(shape_len));
+    return Shape(shape, shape + shape_len);
+}
+
 ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
     if (shape == nullptr) shape_len = 0;
     std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
     if (data == nullptr) {
-        **tensor = Tensor(DTYPE(dtype), Shape(shape, shape + shape_len));
+        **tensor = Tensor(DTYPE(dtype), build_shape(shape, shape_len));
         return tensor.release();
     }
 
@@ -26,7 +31,7 @@ ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype
             break;
 #define DECLARE_TENSOR_BUILD(api_dtype, type) \
         case api_dtype: \
-            **tensor = tensor::build(DTYPE(dtype), Shape(shape, shape + shape_len), \
+            **tensor = tensor::build(DTYPE(dtype), build_shape(shape, shape_len), \
                     reinterpret_cast<const type*>(data)); \
             break;
 
@@ -44,7 +49,7 @@ ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype
 #undef DECLARE_TENSOR_BUILD
         case TS_CHAR8:  // this is for trying build string
         {
-            Tensor tensor_string = tensor::build(INT8, Shape(shape, shape + shape_len),
+            Tensor tensor_string = tensor::build(INT8, build_shape(shape, shape_len),
                                                              reinterpret_cast<const int8_t*>(data));
             tensor_string = tensor::cast(CHAR8, tensor_string);
             **tensor = tensor_string;
@@ -114,7 +119,7 @@ ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t sh
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
         if (!shape && shape_len) throw Exception("NullPointerException: @param: 2");
-        std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
+        std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(build_shape(shape, shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
 
@@ -131,7 +136,7 @@ ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len
         if (shape == nullptr) shape_len = 0;
         std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
-        **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), Shape(shape, shape + shape_len));
+        **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), build_shape(shape, shape_len));
 
         if (data != nullptr) {
             auto bytes = (*tensor)->proto().type_bytes() * (*tensor)->count();
@@ -145,6 +150,7 @@ ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len
 ts_Tensor *ts_Tensor_field(ts_Tensor *tensor, int32_t index) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (index < 0) throw Exception("Field index must not be negative, got " + std::to_string(index));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->field(index)));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
diff --git a/src/frontend/intime.cpp b/src/frontend/intime.cpp
index c739683..c2321b9 100644
--- a/src/frontend/intime.cpp
+++ b/src/frontend/intime.cpp
@@ -171,6 +171,9 @@ namespace ts {
                 Tensor &dst_desc, void *dst_data, int64_t dst_shift,
                 const Tensor &src_desc, const void *src_data, int64_t src_shift,
                 int64_t size) {
+            if (size < 0) {
+                TS_LOG_ERROR << "Can not copy " << size << " bytes" << eject;
+            }
             if (dst_data == nullptr) dst_data = dst_desc.data();
             if (src_data == nullptr) src_data = src_desc.data();
             auto copied = memcpy(reinterpret_cast<char *>(dst_data) + dst_shift, dst_desc.device(), size_t(size),
-- 
2.43.0


From b6db1190f18f7fc87a3b2bc39cdd6c736f67842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 164/178] fix: what the infer function of a plugin operator
 answers is read as documented

---
 src/api/operator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 78f47a7..86bc4b7 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -103,14 +103,16 @@ public:
             class _ : public std::exception {};
             try {
                 if (size <= 0) throw _();
-                packed_proto.resize(size);
+                auto fields_count = data[0];
+                if (fields_count <= 0 || fields_count > size) throw _();
+                packed_proto.resize(fields_count);
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields_count; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From a638d1311870dc8e66ec874ad14eee4f01d51499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 165/178] fix: ts_ImageFilter_force_gray_v2 takes no scale as
 documented

---
 src/api/image_filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/image_filter.cpp b/src/api/image_filter.cpp
index 9d2b253..95b450b 100644
--- a/src/api/image_filter.cpp
+++ b/src/api/image_filter.cpp
@@ -179,7 +179,7 @@ ts_bool ts_ImageFilter_force_gray(ts_ImageFilter *filter) {
 ts_bool ts_ImageFilter_force_gray_v2(ts_ImageFilter *filter, const float *scale, int32_t len) {
     TRY_HEAD
         if (!filter) throw Exception("NullPointerException: @param: 1");
-        if (!scale) throw Exception("NullPointerException: @param: 2");
+        if (!scale) len = 0;
         (*filter)->force_gray(std::vector<float>(scale, scale + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
-- 
2.43.0


From 8d3104582c43199d4d80ddd7353b9eeb739c02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 166/178] fix: a freed workbench is no longer the context of
 its thread

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a9e0c4a..dffaff0 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -134,6 +134,10 @@ namespace ts {
     }
 
     Workbench::~Workbench() {
+        // no context of this thread may refer to a workbench that is gone
+        if (ctx::get<Workbench>() == this) {
+            ctx::set<Workbench>(nullptr);
+        }
         this->m_desktop.reset();
         this->m_stack->clear();
         this->m_inputs.clear();
-- 
2.43.0


From 814a19f9f34d12f152b15adfa886e0b459476f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 167/178] fix: plugin operators can be set up wherever a
 workbench is the context

---
 src/api/declare_operator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/declare_operator.h b/src/api/declare_operator.h
index 52b482d..23daaf3 100644
--- a/src/api/declare_operator.h
+++ b/src/api/declare_operator.h
@@ -17,6 +17,7 @@
 
 #include "core/device_context.h"
 #include "runtime/runtime.h"
+#include "runtime/workbench.h"
 
 struct ts_OperatorParams {
 public:
@@ -57,7 +58,9 @@ struct ts_OperatorContext {
 public:
     ts_OperatorContext() {
         device = &ts::ctx::of<ts::DeviceContext>::ref();
-        runtime = &ts::ctx::of<ts::RuntimeContext>::ref();
+        // out of a run, the context is the workbench set by ts_Workbench_setup_context
+        runtime = ts::ctx::get<ts::RuntimeContext>();
+        if (runtime == nullptr) runtime = &ts::ctx::ref<ts::Workbench>().runtime();
     }
 
     ts::DeviceContext *device;
-- 
2.43.0


From 320fdb2de62e7c2c87e58e5b6ca6c0879fc8a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 168/178] fix: a padding or pooling window refused in one run
 is refused in the next, and changed parameters reach the core

---
 src/kernels/cpu/conv2d_v2.cpp           | 16 +++++++++++-----
 src/kernels/cpu/conv2d_winograd_v2.cpp  | 16 +++++++++++-----
 src/kernels/cpu/depthwise_conv2d_v2.cpp | 16 +++++++++++-----
 src/kernels/cpu/pooling2d_v2.cpp        | 13 ++++++++++++-
 4 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..a6ab492 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -25,6 +25,8 @@ namespace ts {
         void Conv2DV2::init() {
             supper::init();
 
+            m_int_padding4x2 = Tensor();    // the core created below has no padding yet
+
             auto &context = ctx::ref<DeviceContext>();
 
             m_op_conv2d = OperatorCreator::Create(context.computing_device.type(), name::layer::conv2d(), false);
@@ -49,7 +51,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
-            if (!lhs.has_shape(rhs.sizes())) return false;
+            if (rhs.empty() || !lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
                 if(lhs.data<int>(i) != rhs.data<int>(i)) return false;
@@ -63,9 +65,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -80,9 +84,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/conv2d_winograd_v2.cpp b/src/kernels/cpu/conv2d_winograd_v2.cpp
index 21425d7..ce13372 100644
--- a/src/kernels/cpu/conv2d_winograd_v2.cpp
+++ b/src/kernels/cpu/conv2d_winograd_v2.cpp
@@ -22,6 +22,8 @@ namespace ts{
         void Conv2DWinogradV2::init() {
             supper::init();
 
+            m_int_padding4x2 = Tensor();    // the core created below has no padding yet
+
             auto &context = ctx::ref<DeviceContext>();
             m_op_conv2d_winograd = OperatorCreator::Create(context.computing_device.type(), name::layer::conv2d_winograd(), false);
             TS_CHECK_NQ(m_op_conv2d_winograd, nullptr) << "Can not find operator: " << name::layer::conv2d();
@@ -40,7 +42,7 @@ namespace ts{
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
-            if (!lhs.has_shape(rhs.sizes())) return false;
+            if (rhs.empty() || !lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
                 if(lhs.data<int>(i) != rhs.data<int>(i)) return false;
@@ -53,9 +55,11 @@ namespace ts{
 
             auto padding = tensor::cast(INT32, stack[1]);
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d_winograd->set(name::padding, int_padding4x2);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -70,9 +74,11 @@ namespace ts{
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d_winograd->set(name::padding, int_padding4x2);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..67520cb 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -23,6 +23,8 @@ namespace ts {
         void DepthwiseConv2DV2::init() {
             supper::init();
 
+            m_int_padding4x2 = Tensor();    // the core created below has no padding yet
+
             auto &context = ctx::ref<DeviceContext>();
 
             m_op_conv2d = OperatorCreator::Create(context.computing_device.type(), name::layer::depthwise_conv2d(), false);
@@ -47,7 +49,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
-            if (!lhs.has_shape(rhs.sizes())) return false;
+            if (rhs.empty() || !lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
                 if(lhs.data<int>(i) != rhs.data<int>(i)) return false;
@@ -61,9 +63,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -78,9 +82,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // the core holds no valid padding until it accepts this one
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..2a42325 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -21,6 +21,11 @@ namespace ts {
         void Pooling2DV2::init() {
             supper::init();
 
+            // the core created below has no settings yet
+            m_padding_int4x2 = Tensor();
+            m_ksize_int4 = Tensor();
+            m_stride_int4 = Tensor();
+
             auto &context = ctx::ref<DeviceContext>();
 
             m_op_pooling2d = OperatorCreator::Create(context.computing_device.type(), name::layer::pooling2d(), false);
@@ -41,7 +46,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
-            if (!lhs.has_shape(rhs.sizes())) return false;
+            if (rhs.empty() || !lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
                 if(lhs.data<int>(i) != rhs.data<int>(i)) return false;
@@ -74,7 +79,10 @@ namespace ts {
             }
 
             if (updated) {
+                auto accepted = m_stride_int4;
+                m_stride_int4 = Tensor();   // the core is not ready until it accepts these settings
                 m_op_pooling2d->init();
+                m_stride_int4 = accepted;
             }
 
             stack.push(0);
@@ -107,7 +115,10 @@ namespace ts {
             }
 
             if (updated) {
+                auto accepted = m_stride_int4;
+                m_stride_int4 = Tensor();   // the core is not ready until it accepts these settings
                 m_op_pooling2d->init();
+                m_stride_int4 = accepted;
             }
 
 
-- 
2.43.0


From 906a877fa4a0295b38bc382cd4f19518fc83b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 169/178] fix: setting a prior_box up again replaces its
 variances

---
 src/kernels/cpu/prior_box.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index 9b22654..4216a83 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -82,6 +82,7 @@ namespace ts {
                     }
                 }
                 clip_ = tensor::to_bool(get("clip"));
+                variance_.clear();
                 auto tmp_variance = tensor::array::to_float(get("variance"));
                 if (tmp_variance.size() > 1) {
                     // Must and only provide 4 variance.
-- 
2.43.0


From 50595f0b42524659aef411955b461139362f8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:00 +0000
Subject: [PATCH 170/178] fix: references held by Smart are counted atomically

---
 include/core/threadsafe/smart.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..980c754 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
 #undef MOVE_MEMBER
+            this->use_count = other.use_count.load();
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +113,7 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0


From 6c09cc6a14d5f6a0a8601757dd788bdf00e72bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:39 +0000
Subject: [PATCH 171/178] fix: translating a module leaves its graph unchanged,
 so threads can load one module

---
 src/compiler/translater.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/compiler/translater.cpp b/src/compiler/translater.cpp
index 59488ec..a47e6d5 100644
--- a/src/compiler/translater.cpp
+++ b/src/compiler/translater.cpp
@@ -17,6 +17,37 @@ namespace ts {
 
     }
 
+    static Node copy_node(const Node &node, std::unordered_map<Node, Node> &copied_map) {
+        auto copied_it = copied_map.find(node);
+        if (copied_it != copied_map.end()) return copied_it->second;
+        std::vector<Node> copied_inputs;
+        for (auto &input : node.inputs()) {
+            copied_inputs.emplace_back(copy_node(input, copied_map));
+        }
+        auto copied_node = bubble::bubble(node.bubble());
+        Node::Link(copied_node, copied_inputs);
+        copied_map.insert(std::make_pair(node, copied_node));
+        return copied_node;
+    }
+
+    // The graph of a module may be shared, and is linked with new nodes while it is translated
+    static Module::shared copy_module(const Module::shared &module) {
+        Graph copied_graph;
+        ctx::bind<Graph> _bind_graph(copied_graph);
+        std::unordered_map<Node, Node> copied_map;
+        std::vector<Node> copied_outputs;
+        for (auto &node : module->outputs()) {
+            copied_outputs.emplace_back(copy_node(node, copied_map));
+        }
+        std::vector<Node> copied_inputs;
+        for (auto &node : module->inputs()) {
+            copied_inputs.emplace_back(copy_node(node, copied_map));
+        }
+        auto copied_module = Module::Load(copied_graph, copied_outputs);
+        copied_module->sort_inputs(copied_inputs);
+        return copied_module;
+    }
+
     static Node translate_node(const Node& node,
         std::unordered_map<Node, Node> &ready_map,
         const ComputingDevice &device,
@@ -60,7 +91,7 @@ namespace ts {
         //std::cout << "+++++++++++++++++ original graph ++++++++++++++++++++++" << std::endl;
         //plot_graph(std::cout, module->outputs());
 
-        Module::shared new_module = module;
+        Module::shared new_module = copy_module(module);
 
         Graph temp_graph;
         ctx::bind<Graph> _bind_graph(temp_graph);
-- 
2.43.0


From 93d9a6e27941b129c0d074bdb18754157a743ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:24 +0000
Subject: [PATCH 172/178] fix: symbol::concat builds a concat node

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 860b9ac..273604c 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -65,7 +65,7 @@ namespace ts {
         }
 
         Node concat(const std::string &name, const std::vector<Node> &x, int32_t dim) {
-            Node node = bubble::bubble(desc::gather(dim), name);
+            Node node = bubble::bubble(desc::concat(dim), name);
             Node::Link(node, x);
             return node;
         }
-- 
2.43.0


From d7bb342e9cafb57cfbd2e56a5915323e4c8c8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:24 +0000
Subject: [PATCH 173/178] fix: symbol::broadcast builds a broadcast node

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 273604c..dc5c22b 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -103,7 +103,7 @@ namespace ts {
         }
 
         Node broadcast(const std::string &name, const Node &x, const Node &shape) {
-            Node node = bubble::bubble(desc::matmul(), name);
+            Node node = bubble::bubble(desc::broadcast(), name);
             Node::Link(node, {x, shape});
             return node;
         }
-- 
2.43.0


From 2bed896b528f0dc787d2656476899fa71654915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:17 +0000
Subject: [PATCH 174/178] fix: an operator class may have another first base

---
 include/api/cpp/operator.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/api/cpp/operator.h b/include/api/cpp/operator.h
index 17252dc..928d32b 100644
--- a/include/api/cpp/operator.h
+++ b/include/api/cpp/operator.h
@@ -99,6 +99,17 @@ namespace ts {
             }
         };
 
+        /**
+         * Operator may not be the first base of T, so the object is always passed as an Operator
+         */
+        template<typename T>
+        class NewAndFreeOperator {
+        public:
+            static void *New() { return static_cast<Operator *>(new T); }
+
+            static void Free(const void *obj) { delete reinterpret_cast<const Operator *>(obj); }
+        };
+
         /**
          *
          * @tparam T must be the subclass of Operator
@@ -108,7 +119,7 @@ namespace ts {
         template<typename T>
         inline void RegisterOperator(const std::string &device, const std::string &op) {
             ts_Operator_Register(device.c_str(), op.c_str(),
-                                 &NewAndFree<T>::New, &NewAndFree<T>::Free,
+                                 &NewAndFreeOperator<T>::New, &NewAndFreeOperator<T>::Free,
                                  &T::Init, &T::Infer, &T::Run);
         }
     }
-- 
2.43.0


From ddd8981070752e91a173f77d282d9c214ea149b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 175/178] fix: type_str names 16 bit integers

---
 include/api/cpp/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/cpp/dtype.h b/include/api/cpp/dtype.h
index 226ccfb..b0cfd1b 100644
--- a/include/api/cpp/dtype.h
+++ b/include/api/cpp/dtype.h
@@ -71,8 +71,8 @@ namespace ts {
                 case TS_VOID: return "void";
                 case TS_INT8: return "int8";
                 case TS_UINT8: return "uint8";
-                case TS_INT16: return "int64";
-                case TS_UINT16: return "uint64";
+                case TS_INT16: return "int16";
+                case TS_UINT16: return "uint16";
                 case TS_INT32: return "int32";
                 case TS_UINT32: return "uint32";
                 case TS_INT64: return "int64";
-- 
2.43.0


From 2688103dfcfabea5d1fcaab9f69f29e4ee618d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 176/178] fix: FileStreamReaderV2 can be rewound after reading
 to the end

---
 include/api/cpp/stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/api/cpp/stream.h b/include/api/cpp/stream.h
index aabb105..feeb5af 100644
--- a/include/api/cpp/stream.h
+++ b/include/api/cpp/stream.h
@@ -219,6 +219,7 @@ namespace ts {
         inline FileStreamReaderV2::FileStreamReaderV2() = default;
 
         inline void FileStreamReaderV2::rewind() {
+            m_stream.clear();   // reading may have met the end
             m_stream.seekg(0, std::ifstream::beg);
         }
 
-- 
2.43.0


From 1d3aa63fa9712552b950461556f18791e0ffa998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 177/178] fix: tensor::clone gives the wanted data type

---
 include/api/cpp/tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/api/cpp/tensor.h b/include/api/cpp/tensor.h
index 1652221..4ff098b 100644
--- a/include/api/cpp/tensor.h
+++ b/include/api/cpp/tensor.h
@@ -269,7 +269,7 @@ namespace ts {
             }
 
             inline Tensor clone(DTYPE dtype, const Tensor &value) {
-                Tensor dolly = value.clone();
+                Tensor dolly = value.dtype() == dtype ? value.clone() : value.cast(dtype);
                 dolly.sync_cpu();
                 return std::move(dolly);
             }
-- 
2.43.0


From b5a1c227926e372ce1bdda8a9f97b4721a27553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 178/178] fix: a failing tensor::save throws

---
 include/api/cpp/tensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/api/cpp/tensor.h b/include/api/cpp/tensor.h
index 4ff098b..157456b 100644
--- a/include/api/cpp/tensor.h
+++ b/include/api/cpp/tensor.h
@@ -401,12 +401,12 @@ namespace ts {
                 return Tensor::NewRef(ts_Tensor_load(path.c_str()));
             }
 
-            inline void save(const std::string &path, const Tensor &tensor) {
-                ts_Tensor_save(path.c_str(), tensor.get_raw());
+            inline void save(const std::string &path, const ts_Tensor *tensor) {
+                TS_API_AUTO_CHECK(ts_Tensor_save(path.c_str(), tensor));
             }
 
-            inline void save(const std::string &path, const ts_Tensor *tensor) {
-                ts_Tensor_save(path.c_str(), tensor);
+            inline void save(const std::string &path, const Tensor &tensor) {
+                save(path, tensor.get_raw());
             }
         }
     }
-- 
2.43.0

