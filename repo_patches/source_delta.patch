From 0b37e43fe953387f3d7ac351b68e86cd3c9c6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 01/32] fix: return the saturated value from satadd/satsub of
 32/64-bit signed integers

The generic signed saturation returned the first operand instead of the
saturated value when the addition or subtraction overflowed.
---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 8961cb860c1c2ec0762a61583ed147261326f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 02/32] fix: isnegative/ispositive test the sign bit of
 floating-point lanes

---
 include/kfr/simd/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/comparison.hpp b/include/kfr/simd/comparison.hpp
index 573090c..e149fb5 100644
--- a/include/kfr/simd/comparison.hpp
+++ b/include/kfr/simd/comparison.hpp
@@ -92,7 +92,7 @@ KFR_INTRINSIC mask<T, N> isfinite(const vec<T, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC mask<T, N> isnegative(const vec<T, N>& x)
 {
-    return (x & special_constants<T>::highbitmask()) != 0;
+    return bitcast<T>((bitcast<itype<T>>(x) < itype<T>(0)).asvec()).asmask();
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 9fe8f871f2835d990305996414e24352d5deaa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 03/32] fix: copysign keeps the magnitude of its first argument

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..40d98cf 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -593,7 +593,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From dfe88338d8fe1904ad78d6ca44d6bdf9db9aca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 04/32] fix: round() without SSE4.1 returns a nearest integer
 for 0.49999997 and odd values above 2^23

---
 include/kfr/simd/impl/round.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index d20ad45..e66e105 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -164,14 +164,16 @@ KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
+    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
     return select(abs(x) >= fp_precision_limit<f32>, x,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.5f), x))));
+                  t + select(abs(x - t) >= 0.5f, mulsign(broadcast<N>(1.f), x), 0.f));
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
+    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
     return select(abs(x) >= fp_precision_limit<f64>, x,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.5), x))));
+                  t + select(abs(x - t) >= 0.5, mulsign(broadcast<N>(1.), x), 0.));
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
-- 
2.43.0


From d962419fe550d487e3510b8a8cd8272d45808a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 05/32] fix: all() on AVX-512 float and double masks (the
 complement of an 8/16-bit mask was tested after integer promotion)

---
 include/kfr/simd/impl/logical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/logical.hpp b/include/kfr/simd/impl/logical.hpp
index a511088..89019de 100644
--- a/include/kfr/simd/impl/logical.hpp
+++ b/include/kfr/simd/impl/logical.hpp
@@ -108,11 +108,11 @@ KFR_INTRINSIC bool bittestany(const mi64avx512& x) { return _mm512_movepi64_mask
 // horizontal AND
 KFR_INTRINSIC bool bittestall(const mf32avx512& x)
 {
-    return !~_mm512_movepi32_mask(_mm512_castps_si512(x.v));
+    return !uint16_t(~_mm512_movepi32_mask(_mm512_castps_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mf64avx512& x)
 {
-    return !~_mm512_movepi64_mask(_mm512_castpd_si512(x.v));
+    return !uint8_t(~_mm512_movepi64_mask(_mm512_castpd_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mu8avx512& x) { return !~_mm512_movepi8_mask(x.v); }
 KFR_INTRINSIC bool bittestall(const mu16avx512& x) { return !~_mm512_movepi16_mask(x.v); }
-- 
2.43.0


From 734ef769c913c7181dac2f974522c6c3752f1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 06/32] fix: process() no longer stores past the end of the
 range when start is not a multiple of the vector width

---
 include/kfr/base/expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..fb5a934 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -615,14 +615,14 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
@@ -635,7 +635,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +645,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
-- 
2.43.0


From 476797074ef6226785fc3ed007acb992fee44177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 07/32] fix: reverse() of a multidimensional expression reads
 the wrong rows when vectorized

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..f989ed2 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -450,7 +450,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> count(1);
+    count[Axis] = N;
+    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(count), sh));
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 8066fbdf8c211c151975c8a5fee5f436e7c47004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 08/32] fix: lambda expression evaluates the wrong positions
 when vectorized along an axis other than the last

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index f989ed2..bcb56aa 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
-- 
2.43.0


From 9f84e8d30acc6a2b7e7e85f24f59bcd4b6a72227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 09/32] fix: dimensions() repeats the first element of every
 chunk along existing dimensions

---
 include/kfr/base/basic_expressions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index bcb56aa..7ea0a3d 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1053,13 +1053,13 @@ struct expression_dimensions : public expression_with_traits<E>
                                                          axis_params<VecAxis, N> sh)
     {
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        if constexpr (VecAxis + in_dims < dims)
         {
             return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis + in_dims - dims, N>);
         }
     }
 };
-- 
2.43.0


From 83d9dfaec98127b189d91abe1c73c8e191f5cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 10/32] fix: broadcasting in expressions evaluated along an
 axis other than the last

---
 include/kfr/base/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index fb5a934..0f92cfd 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -564,7 +564,7 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
         {
             if constexpr (sizeof...(Args) > 1 && N > 1)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
+                if (CMT_UNLIKELY(self.masks[idx][maximum_dims - Traits::dims + NewVecAxis] == 0))
                     return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
                         .front();
                 else
-- 
2.43.0


From 0b14fbf5845131e055f40fa1e13b8336ad14474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 11/32] fix: reshape() takes elements across rows as contiguous

---
 include/kfr/base/basic_expressions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 7ea0a3d..379bb58 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -609,7 +609,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_reshape<Arg, outdims>& sel
                      [&](auto n) CMT_INLINE_LAMBDA
                      {
                          constexpr index_t axis = val_of<decltype(n)>({});
-                         if (!done && diff_idx[axis] == N - 1)
+                         if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                          {
                              result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
                              done   = true;
@@ -661,7 +661,7 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
                  [&](auto n) CMT_INLINE_LAMBDA
                  {
                      constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+                     if (!done && diff_idx == shape<indims>(0).add_at(N - 1, cindex<axis>))
                      {
                          set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
                          done = true;
-- 
2.43.0


From c221034fe00897ea903ea2d2d8bcd6584a0c483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 12/32] fix: havg() of signed integer vectors divides by an
 unsigned count

---
 include/kfr/simd/horizontal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..ef1fa1c 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,7 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    return hadd(value) / subtype<T>(N);
 }
 KFR_FN(havg)
 
-- 
2.43.0


From 7225b8810116c5e8cfebebea0fe6ca8632f9c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 13/32] fix: round to nearest and saturate in integer sample
 conversion

Truncation lost one code on a round trip through a wider or floating-point
format, and full scale of i64 wrapped to the most negative value.
---
 include/kfr/base/conversion.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..7b1b2f1 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -26,6 +26,7 @@
 #pragma once
 
 #include "../simd/clamp.hpp"
+#include "../simd/round.hpp"
 #include "../simd/types.hpp"
 #include "../simd/vec.hpp"
 #include "univector.hpp"
@@ -183,7 +184,23 @@ template <typename Tout, typename Tin, typename Tout_traits = audio_sample_trait
 inline Tout convert_sample(const Tin& in)
 {
     constexpr auto scale = Tout_traits::scale / Tin_traits::scale;
-    return broadcastto<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale));
+    const auto value     = clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale);
+    if constexpr (is_f_class<Tout>)
+    {
+        return broadcastto<Tout>(value);
+    }
+    else
+    {
+        // round to nearest, so that conversion to a wider format and back restores the sample
+        const auto rounded = rint(value);
+        if constexpr (std::is_same_v<Tout, i64>)
+        {
+            // full scale of i64 rounds up to 2^63 in floating point, which i64 can't represent
+            if (rounded >= Tout_traits::scale)
+                return std::numeric_limits<i64>::max();
+        }
+        return broadcastto<Tout>(rounded);
+    }
 }
 
 /// @brief Deinterleaves and converts audio samples
-- 
2.43.0


From cf0207cdf14e145494604273cfcd2a1003b80c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 14/32] fix: gcd() of a value and zero divides by zero

---
 include/kfr/cometa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index 70b7b06..e641f18 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -948,7 +948,7 @@ constexpr CMT_INTRINSIC T gcd(T a)
 template <typename T>
 constexpr inline T gcd(T a, T b)
 {
-    return a < b ? gcd(b, a) : ((a % b == 0) ? b : gcd(b, a % b));
+    return a < b ? gcd(b, a) : ((b == 0) ? a : gcd<T>(b, a % b));
 }
 
 /// @brief Greatest common divisor
-- 
2.43.0


From 9cc0c66f03f5fe41b3194a1407ed696b679ab688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 15/32] fix: ring buffer transfers longer than the buffer

---
 include/kfr/base/univector.hpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..c442fb6 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -169,8 +169,10 @@ struct univector_base<T, Class, true>
         T* data           = get_data();
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            const size_t skip = srcsize - size;
+            src               = src + skip;
+            srcsize           = size;
+            cursor            = (cursor + skip) % size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -215,28 +217,17 @@ struct univector_base<T, Class, true>
     }
     void ringbuf_read(size_t& cursor, T* dest, size_t destsize) const
     {
-        if (CMT_UNLIKELY(destsize == 0))
-            return;
-        // skip redundant data
         const size_t size = get_size();
         const T* data     = get_data();
-        if (destsize > size)
-        {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
-        }
-        const size_t fsize = size - cursor;
-        // one fragment
-        if (CMT_LIKELY(destsize <= fsize))
-        {
-            copy(dest, data + cursor, destsize);
-        }
-        else // two fragments
+        // one fragment up to the end of the buffer at a time
+        while (destsize > 0)
         {
+            const size_t fsize = std::min(destsize, size - cursor);
             copy(dest, data + cursor, fsize);
-            copy(dest + fsize, data, destsize - fsize);
+            dest += fsize;
+            destsize -= fsize;
+            ringbuf_step(cursor, fsize);
         }
-        ringbuf_step(cursor, destsize);
     }
 
 protected:
-- 
2.43.0


From 89bd3d93221bfb546631151ed409f2aab99ac361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 16/32] fix: cascades shorter than their latency, in ranges not
 starting at zero and around other filters

---
 include/kfr/dsp/biquad.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..db21c5a 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -301,30 +301,37 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_iir_l<filters, T, E1, Stat
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    begin_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
-    size_t size           = stop.front();
-    self.state->block_end = size;
+    begin_pass(self.first(), start, stop);
+    const index_t size    = stop.front() - start.front();
+    self.state->block_end = stop.front();
     vec<T, filters - 1> in;
     for (index_t i = 0; i < filters - 1; i++)
     {
-        in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
+        in[i] = i < size
+                    ? get_elements(self.first(), shape<1>{ start.front() + i }, axis_params_v<0, 1>).front()
+                    : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // the whole pass may be shorter than the latency of the cascade
+    internal::biquad_process(*self.state, in, size < filters ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>&, shape<1>, shape<1>)
+KFR_INTRINSIC void end_pass(const expression_iir<1, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
+    end_pass(self.first(), start, stop);
 }
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void end_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
     self.state->state = self.state->saved_state;
+    end_pass(self.first(), start, stop);
 }
 
 template <typename T, typename E1, bool Stateless, size_t N>
-- 
2.43.0


From 0574174cc3424b4e0f4268d9c15bedcd471873a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 17/32] fix: iir_filter::reset() keeps the old state

---
 include/kfr/dsp/biquad.hpp |  6 ++++++
 src/dsp/biquad.cpp         | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index db21c5a..c4bf16a 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -516,6 +516,12 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// Reset internal filter state
+    void reset() final;
+
+private:
+    iir_params<T> params;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..2fd981e 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,13 +52,21 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : params(params)
 {
-    CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
+    reset();
+}
+
+template <typename T>
+void iir_filter<T>::reset()
+{
+    CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(this->params));
 }
 
 template iir_filter<float>::iir_filter(const iir_params<float>&);
 template iir_filter<double>::iir_filter(const iir_params<double>&);
+template void iir_filter<float>::reset();
+template void iir_filter<double>::reset();
 
 #endif
 
-- 
2.43.0


From d5d356e4a17e6b3867b3db8fb81e93bdb4ef6643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 18/32] fix: begin_pass and end_pass of a substituted
 expression

---
 include/kfr/base/handle.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 7ecd09a..5ef5b09 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -338,6 +338,21 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_placeholder<T, Dims, Key>&
 {
     return self.handle ? get_elements(self.handle, index, sh) : 0;
 }
+
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void begin_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                              shape<Dims> stop)
+{
+    if (self.handle)
+        begin_pass(self.handle, start, stop);
+}
+template <typename T, index_t Dims, size_t Key>
+KFR_INTRINSIC void end_pass(const expression_placeholder<T, Dims, Key>& self, shape<Dims> start,
+                            shape<Dims> stop)
+{
+    if (self.handle)
+        end_pass(self.handle, start, stop);
+}
 } // namespace CMT_ARCH_NAME
 
 template <typename T, index_t Dims = 1, size_t Key = 0>
-- 
2.43.0


From 8731d436f7cf32af665ec397a988e5fb6df9c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 19/32] fix: moving sum of length one reads past its delay line

---
 include/kfr/dsp/fir.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..cbbf814 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -118,14 +118,17 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(Tag > 1 ? 1 : 0) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length)
+        : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From 23feda491613aa81d20a1e02d9c0a4450dd03e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 20/32] fix: histogram of NaN, integer extremes and more bins
 than the sample type counts

---
 include/kfr/base/reduce.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..23f4889 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -189,12 +189,16 @@ struct histogram_data
         {
             const vec<T, N> x = value * size();
             indices           = cast<uint64_t>(round(clamp(x, 0, size() - 1)));
-            indices           = select(value < 0, 0, select(value > 1, size() + 1, 1 + indices));
+            // NaN does not compare and is counted as below
+            indices = select(value >= 0, select(value > 1, size() + 1, 1 + indices), 0);
+        }
+        else if constexpr (std::is_signed_v<T>)
+        {
+            indices = min(1 + cast<uint64_t>(max(value, T(-1))), uint64_t(size() + 1));
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            indices = 1 + min(cast<uint64_t>(value), uint64_t(size()));
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
-- 
2.43.0


From e31190b4e624512ef76aa3ab40b8835e4ba0a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 21/32] fix: integer random_range ignores the lower bound,
 gen_random_uniform does not evaluate

---
 include/kfr/base/random.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..483c79c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -104,11 +104,24 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
+    using U       = std::make_unsigned_t<T>;
+    const u64 rng = static_cast<U>(static_cast<U>(max) - static_cast<U>(min));
 
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    // upper half of the product of a uniform value and the width of the range
+    const vec<u64, N> u = cast<u64>(random_uniform<U, N>(state));
+    if constexpr (sizeof(T) < sizeof(u64))
+    {
+        return cast<T>(cast<U>((u * rng) >> typebits<U>::bits) + static_cast<U>(min));
+    }
+    else
+    {
+        constexpr u64 mask       = 0xFFFFFFFFull;
+        const vec<u64, N> lo     = u & mask;
+        const vec<u64, N> hi     = u >> 32;
+        const vec<u64, N> cross1 = lo * (rng >> 32) + ((lo * (rng & mask)) >> 32);
+        const vec<u64, N> cross2 = hi * (rng & mask) + (cross1 & mask);
+        return cast<T>(hi * (rng >> 32) + (cross1 >> 32) + (cross2 >> 32) + static_cast<U>(min));
+    }
 }
 
 /**
@@ -154,7 +167,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +231,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +240,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From 03b7bacf932b5d879d06c5e874ff0c1c7562e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 22/32] fix: inline_vectors of different sizes compare equal

---
 include/kfr/base/inline_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..9be468c 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return std::equal(begin(), end(), other.begin(), other.end());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
-- 
2.43.0


From df49b67a7887478f46e9cc9eb2bdeb0b7517222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 23/32] fix: small_buffer::push_back() of its own element reads
 freed memory

---
 include/kfr/base/small_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..f0eae3e 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -106,8 +106,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        const T copy(value); // value may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = copy;
     }
 
 protected:
-- 
2.43.0


From bdf811749ff780e3e3d0da613b3e54045eb4e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 24/32] fix: Bluestein DFT loses precision with size: chirp
 phase computed without reduction

---
 src/dft/dft-impl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..73a0d86 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -211,8 +211,15 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->temp_size   = plan.temp_size;
         this->stage_size  = size;
 
-        chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
-                             complex<T>(0, -1) * c_pi<T> / size));
+        // exp(-i * pi * k^2 / size) has period 2 * size in k^2: reduce the phase in integers, because k^2 * pi
+        // in floating point has an absolute error that grows with size
+        chirp_.resize(size * 2 - 1);
+        for (size_t i = 0; i < chirp_.size(); ++i)
+        {
+            const uint64_t k = i < size ? size - 1 - i : i - (size - 1);
+            chirp_[i]        = complex<T>(0, static_cast<T>(-c_pi<double> * (k * k % (2 * size)) / size));
+        }
+        chirp_ = cexp(chirp_);
 
         ichirpp_ = render(truncate(padded(1 / slice(chirp_, 0, 2 * size - 1)), fftsize));
 
-- 
2.43.0


From 2e9b1abef2c134b596534e97ca23b2635204ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:38 +0000
Subject: [PATCH 25/32] fix: dft_plan_md_real::execute() with a run-time
 direction rejects the correct direction

---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..e80b505 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From 098214b7ae02533122f686efaf4830f6f0687a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 26/32] fix: dct_plan scratch buffers overlap the scratch of
 the underlying DFT, wrong results for many sizes

---
 include/kfr/dft/fft.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index e80b505..67ad9a6 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,10 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    dct_plan(size_t size) : dft_plan<T>(size)
+    {
+        this->temp_size += sizeof(complex<T>) * size * 2 + dft_scratch_size();
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
@@ -865,10 +868,12 @@ struct dct_plan : dft_plan<T>
     {
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
-        univector_ref<complex<T>> mirrored = make_univector(
-            ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size * 2), size);
+        // the last dft_scratch_size() bytes of temp are used by dft_plan<T>::execute
+        u8* const end                      = temp + this->temp_size - dft_scratch_size();
+        univector_ref<complex<T>> mirrored =
+            make_univector(ptr_cast<complex<T>>(end - sizeof(complex<T>) * size * 2), size);
         univector_ref<complex<T>> mirrored_dft =
-            make_univector(ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size), size);
+            make_univector(ptr_cast<complex<T>>(end - sizeof(complex<T>) * size), size);
         auto t = counter() * c_pi<T> / (size * 2);
         if (!inverse)
         {
@@ -907,6 +912,12 @@ struct dct_plan : dft_plan<T>
     {
         execute(out.data(), in.data(), temp.data(), inverse);
     }
+
+private:
+    size_t dft_scratch_size() const
+    {
+        return align_up(sizeof(complex<T>) * (this->size + 1), platform<>::native_cache_alignment);
+    }
 };
 
 inline namespace CMT_ARCH_NAME
-- 
2.43.0


From 91c7a19ed3a37709ce709cc24fafa5efb7ae8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 27/32] fix: symmetric windows of one sample are NaN

---
 include/kfr/base/basic_expressions.hpp |  2 +-
 include/kfr/dsp/window.hpp             | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 379bb58..f0b9ea2 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -700,7 +700,7 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint && size > 1 ? size - 1 : size))
     {
     }
 
diff --git a/include/kfr/dsp/window.hpp b/include/kfr/dsp/window.hpp
index a4df453..d8471f5 100644
--- a/include/kfr/dsp/window.hpp
+++ b/include/kfr/dsp/window.hpp
@@ -85,17 +85,17 @@ struct window_linspace : expression_linspace<T>
 {
     window_linspace(cval_t<window_metrics, window_metrics::metrics_0_1>, size_t size,
                     window_symmetry symmetry)
-        : expression_linspace<T>{ 0, 1, size, symmetry == window_symmetry::symmetric }
+        : window_linspace(T(0), T(1), size, symmetry)
     {
     }
     window_linspace(cval_t<window_metrics, window_metrics::metrics_m1_1>, size_t size,
                     window_symmetry symmetry)
-        : expression_linspace<T>{ -1, 1, size, symmetry == window_symmetry::symmetric }
+        : window_linspace(T(-1), T(1), size, symmetry)
     {
     }
     window_linspace(cval_t<window_metrics, window_metrics::metrics_mpi_pi>, size_t size,
                     window_symmetry symmetry)
-        : expression_linspace<T>{ -c_pi<T>, +c_pi<T>, size, symmetry == window_symmetry::symmetric }
+        : window_linspace(T(-c_pi<T>), T(+c_pi<T>), size, symmetry)
     {
     }
     window_linspace(cval_t<window_metrics, window_metrics::metrics_m1_1_trunc>, size_t size,
@@ -110,6 +110,13 @@ struct window_linspace : expression_linspace<T>
                                   size, symmetry == window_symmetry::symmetric }
     {
     }
+    window_linspace(T start, T stop, size_t size, window_symmetry symmetry)
+        : expression_linspace<T>{ start, stop, size, symmetry == window_symmetry::symmetric }
+    {
+        // the only sample of a symmetric window is its centre
+        if (size == 1 && symmetry == window_symmetry::symmetric)
+            this->start = this->stop = (start + stop) / 2;
+    }
     static T calc_p(size_t size, bool sym)
     {
         if (!sym)
-- 
2.43.0


From 22f11ff465adc7c2c47c4db176ed81a981001d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 28/32] fix: modzerobessel overflows to NaN for single
 precision: kaiser windows with beta above 16 are NaN

---
 include/kfr/math/impl/modzerobessel.hpp | 48 +++----------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index ec462b6..21e36f3 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -41,56 +41,18 @@ namespace intrinsics
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
 {
-    constexpr static T bessel_coef[] = { T(0.25),
-                                         T(0.027777777777777776236),
-                                         T(0.0017361111111111110147),
-                                         T(6.9444444444444444384e-005),
-                                         T(1.9290123456790123911e-006),
-                                         T(3.9367598891408417495e-008),
-                                         T(6.1511873267825652335e-010),
-                                         T(7.5940584281266239246e-012),
-                                         T(7.5940584281266233693e-014),
-                                         T(6.2760813455591932909e-016),
-                                         T(4.3583898233049949985e-018),
-                                         T(2.5789288895295827557e-020),
-                                         T(1.3157800456783586208e-022),
-                                         T(5.8479113141260384983e-025),
-                                         T(2.2843403570804837884e-027),
-                                         T(7.904291893012054025e-030),
-                                         T(2.4395962632753252792e-032),
-                                         T(6.75788438580422547e-035),
-                                         T(1.689471096451056426e-037),
-                                         T(3.8310002187098784929e-040),
-                                         T(7.9152897080782616517e-043),
-                                         T(1.4962740468957016443e-045),
-                                         T(2.5976979980828152196e-048),
-                                         T(4.1563167969325041577e-051),
-                                         T(6.1483976285983795968e-054),
-                                         T(8.434015951438105991e-057),
-                                         T(1.0757673407446563809e-059),
-                                         T(1.2791526049282476926e-062),
-                                         T(1.4212806721424974034e-065),
-                                         T(1.4789601166935457918e-068),
-                                         T(1.4442969889585408123e-071),
-                                         T(1.3262598613026086927e-074),
-                                         T(1.1472836170437790782e-077),
-                                         T(9.3655805472961564331e-081),
-                                         T(7.2265282000741942594e-084),
-                                         T(5.2786911614858977913e-087),
-                                         T(3.6556032974279072401e-090),
-                                         T(2.4034209713529963119e-093),
-                                         T(1.5021381070956226783e-096) };
-
     const vec<T, N> x_2     = x * 0.5;
     const vec<T, N> x_2_sqr = x_2 * x_2;
-    vec<T, N> num           = x_2_sqr;
+    vec<T, N> term          = x_2_sqr;
     vec<T, N> result;
     result = 1 + x_2_sqr;
 
+    // each term is derived from the previous one: powers of x alone overflow long before the sum does
     CMT_LOOP_UNROLL
-    for (size_t i = 0; i < (sizeof(T) == 4 ? 20 : 39); i++)
+    for (size_t i = 2; i < 41; i++)
     {
-        result = fmadd((num *= x_2_sqr), bessel_coef[i], result);
+        term *= x_2_sqr * (T(1) / static_cast<T>(i * i));
+        result += term;
     }
     return result;
 }
-- 
2.43.0


From e8d1622c3931cbd93f21c066f0e4066b803bca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 29/32] fix: checked common_shape of three or more shapes does
 not report incompatible trailing shapes

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..b6ccf9a 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -708,7 +708,7 @@ KFR_MEM_INTRINSIC constexpr shape<outdims> common_shape(const shape<dims1>& shap
                                                         const shape<dims2>& shape2,
                                                         const shape<dims>&... shapes)
 {
-    return common_shape<checked>(shape1, common_shape(shape2, shapes...));
+    return common_shape<checked>(shape1, common_shape<checked>(shape2, shapes...));
 }
 
 template <index_t dims1, index_t dims2>
-- 
2.43.0


From ea0bf2f517b90592d99f4fa202afe41a6c797e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 30/32] fix: tensor slicing with negative step treats
 start/stop of -1 as missing, large steps overflow

---
 include/kfr/base/tensor.hpp | 51 ++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..c40015c 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -422,44 +422,31 @@ public:
                                             signed_index_t tsize, const tensor_range& iidx)
     {
         signed_index_t tstep = iidx.step.value_or(1);
-        signed_index_t tstart;
-        signed_index_t tstop;
-        if (tstep >= 0)
-        {
-            tstart = iidx.start.value_or(0);
-            tstop  = iidx.stop.value_or(tsize);
-        }
-        else
+        // negative positions count from the end, positions outside the axis are clamped
+        const auto normalize = [tsize](signed_index_t pos, signed_index_t low, signed_index_t high)
+        { return std::max(std::min(pos < 0 ? tsize + pos : pos, high), low); };
+        if (tstep == 0)
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            signed_index_t tstart = normalize(iidx.start.value_or(0), 0, tsize);
+            start                 = tstart;
+            shape                 = iidx.stop.value_or(tsize) - tstart;
+            step                  = 0;
         }
-        tstart = tstart < 0 ? tsize + tstart : tstart;
-        tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
-        if (tstep == 0)
+        else if (tstep > 0)
         {
-            start = tstart;
-            shape = tstop - tstart;
-            step  = 0;
+            signed_index_t tstart = normalize(iidx.start.value_or(0), 0, tsize);
+            signed_index_t tstop  = normalize(iidx.stop.value_or(tsize), 0, tsize);
+            start                 = tstart;
+            shape                 = tstop > tstart ? (tstop - tstart - 1) / tstep + 1 : 0;
+            step                  = tstep;
         }
         else
         {
-            tstop = tstop < 0 ? tsize + tstop : tstop;
-            tstop = std::max(std::min(tstop, tsize), signed_index_t(0));
-            if (tstep >= 0)
-            {
-                tstop = std::max(tstop, tstart);
-                start = tstart;
-                shape = (tstop - tstart + tstep - 1) / tstep;
-                step  = tstep;
-            }
-            else
-            {
-                tstart = std::max(tstart, tstop);
-                shape  = (tstart - tstop + -tstep - 1) / -tstep;
-                start  = tstart - 1;
-                step   = tstep;
-            }
+            signed_index_t tstart = iidx.start ? normalize(*iidx.start, -1, tsize - 1) : tsize - 1;
+            signed_index_t tstop  = iidx.stop ? normalize(*iidx.stop, -1, tsize - 1) : -1;
+            start                 = std::max(tstart, signed_index_t(0));
+            shape                 = tstart > tstop ? 1 - (tstart - tstop - 1) / tstep : 0;
+            step                  = tstep;
         }
     }
 
-- 
2.43.0


From 0238a14ded048e00816b027c84afd6ec6d03e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 31/32] fix: self-assignment of a tensor releases its own
 storage

---
 include/kfr/base/tensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index c40015c..0c17642 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,14 +361,20 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
-        this->~tensor();
-        new (this) tensor(src);
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(src);
+        }
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
-        this->~tensor();
-        new (this) tensor(std::move(src));
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(std::move(src));
+        }
         return *this;
     }
 #else
-- 
2.43.0


From 5dc805030bd4034a5e626903b5deecba429768dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 32/32] fix: matrix_transpose of an empty matrix divides by
 zero

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..9f86c3c 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -600,7 +600,7 @@ void matrix_transpose(vec<T, N>* out, const vec<T, N>* in, shape<Dims> tshape)
     {
         const index_t rows = tshape[0];
         const index_t cols = tshape[1];
-        if (cols == 1 || rows == 1)
+        if (cols <= 1 || rows <= 1)
         {
             return internal::matrix_transpose_noop(out, in, tshape.product());
         }
-- 
2.43.0

