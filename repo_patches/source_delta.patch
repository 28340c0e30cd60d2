From 88be889f157beea284640ac3ec6777a7fc02bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 01/13] fix: SSE IIR downsampler must not read beyond the end
 of its input

Loading four floats at in_ptr + pos * 2 reads two floats past the end of the
input block for the last output sample; only two are needed.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..0b8c781 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From 8a9b530cd39e4d61ad9e548af649d01577767852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 02/13] fix: IIR resamplers must accept empty blocks

The hiir process_block() functions require nbr_spl > 0 (assert, and a
do-while loop that processes at least one sample).
---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..a2a6456 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples)
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples)
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples)
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples)
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From f2a77e2c566b7f1cd51e7b90ee5a5b1bed5ad923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 03/13] fix: order() and sse_enabled() must not crash for ratio
 1

There is no filter stage for ratio 1, so impl_x2 is null.
---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..c220038 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,7 +255,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -312,7 +312,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 && impl_x2->sse_enabled();
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From 5c831c597f1ab1635ea0bca59fcd523b7bb1c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 04/13] fix: copying an AlignedArray must copy its elements

The implicit copy constructor/assignment shared the memory between both
arrays, which was then freed twice.
---
 include/pandaresampler.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c220038..7c5923f 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,21 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray& other) :
+    AlignedArray (other.n_elements)
+  {
+    std::copy (other.data, other.data + other.n_elements, data);
+  }
+  AlignedArray&
+  operator= (const AlignedArray& other)
+  {
+    AlignedArray copy (other);
+
+    std::swap (unaligned_mem, copy.unaligned_mem);
+    std::swap (data, copy.data);
+    std::swap (n_elements, copy.n_elements);
+    return *this;
+  }
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From 94ee68b4c50ea1c65cb5a034262f3dca674a4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 05/13] fix: AlignedArray must report allocation failure

The result of malloc() was not checked, so running out of memory resulted in
writing to a null pointer. Using operator new, std::bad_alloc is thrown like
for the std::vector members of the resamplers.
---
 include/pandaresampler.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 7c5923f..415c354 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -4,6 +4,7 @@
 
 #include <vector>
 #include <memory>
+#include <new>
 #include <cstdio>
 #include <cstdlib>
 
@@ -55,7 +56,7 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    unaligned_mem = (unsigned char *) ::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
@@ -95,7 +96,7 @@ public:
     /* C++ destruction order: last allocated element is deleted first */
     while (n_elements)
       data[--n_elements].~T();
-    free (unaligned_mem);
+    ::operator delete (unaligned_mem);
   }
   T&
   operator[] (size_t pos)
-- 
2.43.0


From 979d9eda3b6c231dcc18cd9ff5a6479c23e43fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 06/13] fix: IIR designer must not compute negative filter
 orders

For small attenuations log (a * a / 16) is positive, so the order and the
number of coefficients were negative.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index bf4c479..5483550 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -492,7 +492,7 @@ int	PolyphaseIir2Designer::compute_order (double attenuation, double q)
 	{
 		++ order;
 	}
-	if (order == 1)
+	if (order < 3)
 	{
 		order = 3;
 	}
-- 
2.43.0


From da1642068920d2f6276bffb8727d5c5e932547ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 07/13] fix: IIR designer must report if group delay search did
 not converge

conv_flag is true while the search has not converged yet, so the test for
ResCode_FAIL_CONV was inverted.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 5483550..dd40937 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -309,7 +309,7 @@ PolyphaseIir2Designer::ResCode	PolyphaseIir2Designer::compute_coefs_spec_order_g
 		while (conv_flag && nbr_it < max_it);
 
 		// Checks convergence
-		if (nbr_it >= max_it && ! conv_flag)
+		if (nbr_it >= max_it && conv_flag)
 		{
 			ret_val = ResCode_FAIL_CONV;
 		}
-- 
2.43.0


From f18e9cb3575154f6a660ee8de88202367da7e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/13] fix: IIR designer must compute the phase delay of its
 second order cells

The cells are (a + z^-2) / (1 + a z^-2), so the phase depends on 2 * w, and the
delay is -phase / w. Also define the limit for frequency 0, which was NaN.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index dd40937..11a5e17 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -363,10 +363,15 @@ double	PolyphaseIir2Designer::compute_phase_delay (double a, double f_fs)
 	assert (f_fs < 0.5);
 
 	const double   w  = 2 * hiir::PI * f_fs;
-	const double   c  = cos (w);
-	const double   s  = sin (w);
+	if (w == 0)
+	{
+		return 2 * (1 - a) / (1 + a);
+	}
+	// H(w) = (a + e^-2jw) / (1 + a e^-2jw), phase is -atan2 (y, x)
+	const double   c  = cos (2 * w);
+	const double   s  = sin (2 * w);
 	const double   x  = a + c + a * (c * (a + c) + s * s);
-	const double   y  = a * a * s - s;
+	const double   y  = s - a * a * s;
 	double         ph = atan2 (y, x);
 	if (ph < 0)
 	{
-- 
2.43.0


From 4dca42fc12f922aa596333aa1c751a7a85c27eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 09/13] fix: SSE IIR resamplers with odd number of coefficients
 must decay to silence

The padding section had its pole on the unit circle, so that rounding errors
accumulated in a never ending oscillation (-128 dB for a full scale signal, or
as loud as the signal after a burst of large values).
---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  3 +++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 27 +++++++++++++------
 include/pandaresampler/hiir/Upsampler2xSse.h  |  3 +++
 .../pandaresampler/hiir/Upsampler2xSse.hpp    | 23 +++++++++++-----
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 7935fe5..d7dc29b 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -97,6 +97,9 @@ private:
 	static constexpr int _stage_width = 2;
 	static constexpr int _nbr_stages  = (NBR_COEFS + _stage_width - 1) / _stage_width;
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 	// Stage 0 contains only input memory
 	typedef std::array <StageDataSse, _nbr_stages + 1> Filter;
 
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index 0b8c781..b0d4dc8 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -53,10 +53,6 @@ Downsampler2xSse <NC>::Downsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -110,7 +106,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -146,7 +142,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -181,7 +177,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -229,7 +225,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		process_stages (x);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -268,6 +264,21 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+template <int NC>
+void	Downsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Odd number of coefficients: lane 0 bypasses the last stage. A unit
+		// coefficient would do this too, but has a pole on the unit circle, so
+		// rounding errors would accumulate instead of decaying.
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.h b/include/pandaresampler/hiir/Upsampler2xSse.h
index 8b026f1..492dc89 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.h
+++ b/include/pandaresampler/hiir/Upsampler2xSse.h
@@ -95,6 +95,9 @@ private:
 	static constexpr int _nbr_stages  =
 		(NBR_COEFS + _stage_width - 1) / _stage_width;
 
+	hiir_FORCEINLINE void
+	               process_stages (__m128 &x);
+
 	// Stage 0 contains only input memory
 	typedef std::array <StageDataSse, _nbr_stages + 1> Filter;
 
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..1920ceb 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -56,10 +56,6 @@ Upsampler2xSse <NC>::Upsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
 
 	clear_buffers ();
 }
@@ -113,7 +109,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +146,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	process_stages (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
@@ -188,6 +184,21 @@ void	Upsampler2xSse <NC>::clear_buffers ()
 
 
 
+template <int NC>
+void	Upsampler2xSse <NC>::process_stages (__m128 &x)
+{
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// Odd number of coefficients: lane 0 bypasses the last stage. A unit
+		// coefficient would do this too, but has a pole on the unit circle, so
+		// rounding errors would accumulate instead of decaying.
+		x = _mm_move_ss (x, _mm_load_ss (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 8d2d42375ae45144daecbbb84d05ddeecdf7375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 10/13] fix: AlignedArray must not overflow computing its
 allocation size

---
 include/pandaresampler.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 415c354..ce38c51 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -56,7 +56,11 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) ::operator new (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    /* if the size is too big for size_t, operator new throws std::bad_alloc */
+    const size_t padding = 2 * (cache_line_size - 1);
+    const size_t max_elements = (size_t (-1) - padding) / sizeof (T);
+
+    unaligned_mem = (unsigned char *) ::operator new (n_elements <= max_elements ? n_elements * sizeof (T) + padding : size_t (-1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
-- 
2.43.0


From 7222dcea4511b8208982ec3685f6272427bbd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:05 +0000
Subject: [PATCH 11/13] fix: AlignedArray must release its memory if an element
 constructor throws

---
 include/pandaresampler.hh | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index ce38c51..53a0b7c 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -49,7 +49,7 @@ class AlignedArray {
   size_t n_elements;
 
   void
-  allocate_aligned_data()
+  allocate_aligned_data (size_t n)
   {
     /* for SSE we need 16-byte alignment, but we also ensure that no false
      * sharing will occur (at begin and end of data)
@@ -60,20 +60,27 @@ class AlignedArray {
     const size_t padding = 2 * (cache_line_size - 1);
     const size_t max_elements = (size_t (-1) - padding) / sizeof (T);
 
-    unaligned_mem = (unsigned char *) ::operator new (n_elements <= max_elements ? n_elements * sizeof (T) + padding : size_t (-1));
+    unaligned_mem = (unsigned char *) ::operator new (n <= max_elements ? n * sizeof (T) + padding : size_t (-1));
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
 
     data = reinterpret_cast<T *> (aligned_mem);
   }
+  struct NoElements {};
+
+  AlignedArray (size_t max_elements, NoElements) :
+    n_elements (0)
+  {
+    allocate_aligned_data (max_elements);
+  }
 public:
-  AlignedArray (size_t n_elements) :
-    n_elements (n_elements)
+  AlignedArray (size_t n) :
+    AlignedArray (n, NoElements())
   {
-    allocate_aligned_data();
-    for (size_t i = 0; i < n_elements; i++)
-      new (data + i) T();
+    /* if a constructor throws, our destructor cleans up the elements we have so far */
+    for (; n_elements < n; n_elements++)
+      new (data + n_elements) T();
   }
   AlignedArray (const std::vector<T>& elements) :
     AlignedArray (elements.size())
-- 
2.43.0


From 615480d48bfb866a731d52e9ee56f0de9418c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 12/13] fix: IIR designer must meet its specification for
 narrow transition bands

The truncated series for the elliptic nome is too inaccurate for transition
bandwidths close to 0 (144 dB requested with a transition bandwidth of 0.001:
99 dB obtained) and cancellation affects those close to 1/2. Compute the nome
with arithmetic-geometric means.
---
 .../hiir/PolyphaseIir2Designer.cpp            | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 11a5e17..8efad00 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -475,11 +475,24 @@ void	PolyphaseIir2Designer::compute_transition_param (double &k, double &q, doub
 	k *= k;
 	assert (k < 1);
 	assert (k > 0);
-	double         kksqrt = pow (1 - k * k, 0.25);
-	const double   e = 0.5 * (1 - kksqrt) / (1 + kksqrt);
-	const double   e2 = e * e;
-	const double   e4 = e2 * e2;
-	q = e * (1 + e4 * (2 + e4 * (15 + 150 * e4)));
+
+	// Elliptic nome: q = exp (-PI * K' / K), with the complete elliptic
+	// integrals computed by arithmetic-geometric means. A truncated series
+	// would not be accurate enough for the whole range of transition.
+	double         k_a = 1;
+	double         k_b = sqrt ((1 - k) * (1 + k));
+	double         kp_a = 1;
+	double         kp_b = k;
+	for (int it = 0; it < 16; ++it)
+	{
+		const double   k_m  = (k_a + k_b) * 0.5;
+		const double   kp_m = (kp_a + kp_b) * 0.5;
+		k_b  = sqrt (k_a * k_b);
+		kp_b = sqrt (kp_a * kp_b);
+		k_a  = k_m;
+		kp_a = kp_m;
+	}
+	q = exp (-hiir::PI * k_a / kp_a);
 	assert (q > 0);
 }
 
-- 
2.43.0


From be14be1be74e92df0395023178367f89bcbb35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 13/13] fix: FIR upsampler must not wrap around in blocks of
 2^31 samples or more

---
 include/pandaresampler/pandaresampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index a2a6456..48d2e1f 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -388,7 +388,7 @@ protected:
                          uint         n_input_samples,
 			 float       *output)
   {
-    uint i = 0;
+    size_t i = 0;
     if (USE_SSE)
       {
         /* (i + 6) -> need to take into account that the filter needs to access
@@ -412,7 +412,7 @@ protected:
                            uint         n_input_samples,
 			   float       *output)
   {
-    uint i = 0;
+    size_t i = 0;
     if (USE_SSE)
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
-- 
2.43.0

