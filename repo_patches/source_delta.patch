From ca5dc449e1d3da999df727acb72a35542d529c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:14 +0000
Subject: [PATCH 01/48] fix: make radix-2 FFT kernels handle orders 0 and 1

Stage 0 of every dit2 kernel and of the split plan accessed x[1] of a one
element vector, and kernel v4 ran the last stage twice for order 1.
---
 .../fft/fallback/fallback_split_fft_plan.hpp  |  4 ++++
 src/neo/fft/reference/kernel/c2c_dit2.hpp     | 20 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..0431f39 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -53,6 +53,10 @@ struct fallback_split_fft_plan
 private:
     auto stage_0(inout_vector_of<Float> auto xre, inout_vector_of<Float> auto xim) -> void
     {
+        if (order() == 0) {
+            return;
+        }
+
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..6655239 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -25,6 +25,10 @@ struct c2c_dit2_v1
         auto const size  = x.size();
         auto const order = static_cast<std::int32_t>(bit_log2(size));
 
+        if (size < 2) {
+            return;
+        }
+
         {
             // stage 0
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
@@ -76,6 +80,10 @@ struct c2c_dit2_v2
     {
         auto const size = x.size();
 
+        if (size < 2) {
+            return;
+        }
+
         {
             // stage 0
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
@@ -130,6 +138,10 @@ struct c2c_dit2_v3
         auto const size  = x.size();
         auto const order = bit_log2(size);
 
+        if (size < 2) {
+            return;
+        }
+
         {
             // stage 0
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
@@ -179,6 +191,10 @@ struct c2c_dit2_v4
         auto const size  = x.size();
         auto const order = bit_log2(size);
 
+        if (size < 2) {
+            return;
+        }
+
         {
             // stage = 0
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
@@ -194,6 +210,10 @@ struct c2c_dit2_v4
             }
         }
 
+        if (order < 2) {
+            return;
+        }
+
         for (auto stage{1ULL}; stage < order - 1; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
-- 
2.43.0


From 2f4feda6b60bb93b9d24c92e9cc7df299ae2778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:14 +0000
Subject: [PATCH 02/48] fix: use the requested direction's twiddles in the
 radix-2 Stockham plans

Forward computed the backward transform and vice versa.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From 6e6a489b9397d48c7b4a52ea8c2696c23971d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:23 +0000
Subject: [PATCH 03/48] fix: correct the sign of the quarter-turn factor in the
 radix-4 plans

The second and fourth output of every radix-4 butterfly were exchanged in
c2c_dit4_plan, c2c_dif4_plan and c2c_stockham_dit4_plan, so neither
direction computed the DFT.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 4 ++--
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..118ad68 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -58,7 +58,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
         auto w_stride = ipow<size_type(4)>(order - 1UL);
@@ -139,7 +139,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = ipow<size_type(4)>(order);
         auto w_stride = 1UL;
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..e66935a 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -41,7 +41,7 @@ struct c2c_stockham_dit4_plan
         auto const y = _work.to_mdspan();
 
         auto const sign = dir == direction::forward ? Float(-1) : Float(+1);
-        auto const i    = Complex{Float(0), sign};
+        auto const i    = Complex{Float(0), -sign};
         // auto const w    = dir == direction::forward
         //                     ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)
         //                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent, stdex::full_extent);
-- 
2.43.0


From cdf3f51645fb2655d62ada8d83089e87f61aa21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:23 +0000
Subject: [PATCH 04/48] fix: support order 0 in the radix-4 plans

The twiddle table size and stride underflowed for a one element transform.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 118ad68..cc3d174 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -61,7 +61,7 @@ private:
         auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
-        auto w_stride = ipow<size_type(4)>(order - 1UL);
+        auto w_stride = x.size() / 4UL;
         auto krange   = 1UL;
         auto block    = x.size() / 4UL;
         auto base     = 0UL;
@@ -189,7 +189,7 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
+        auto kmax  = n < 4UL ? 0UL : 3UL * (n / 4UL - 1UL);
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
-- 
2.43.0


From 575e513171d3059694c66916c10f12d1a3bb7e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:29 +0000
Subject: [PATCH 05/48] fix: gather the single sample of a one-point DCT

The reordering loop copied nothing for size 1, so the result was zero.
---
 src/neo/fft/dct.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..bf8bbf5 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -40,12 +40,11 @@ struct fallback_dct2_plan
         auto const buf = _buffer.to_mdspan();
         assert(len == size());
 
+        for (auto i{0U}; i < (len + 1U) / 2U; ++i) {
+            buf[i] = x[i * 2U];
+        }
         for (auto i{0U}; i < len / 2U; ++i) {
-            auto const src = i * 2U;
-            auto const top = len - i - 1;
-
-            buf[i]   = x[src];
-            buf[top] = x[src + 1];
+            buf[len - i - 1] = x[i * 2U + 1];
         }
 
         _fft(buf, direction::forward);
-- 
2.43.0


From 858b29c7567c7c48ef5a6277c57108c78fc3dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:13 +0000
Subject: [PATCH 06/48] fix: keep the whole tail of a block in overlap_add

Only one block of overlap was kept and only one block of the window was
zero-padded, so filters longer than the block lost their tail, earlier
results leaked into the padding, and a transform shorter than two blocks
was indexed out of range.
---
 src/neo/convolution/overlap_add.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..63ad5d0 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
 };
 
 template<complex Complex>
@@ -81,7 +81,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -99,11 +99,18 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     irfft(_rfft, spectrum, window);
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
+    // Add pending tails of previous blocks
+    add(window, overlap, overlap);
+
     // Copy to output
-    add(signal, overlap, block);
+    copy(stdex::submdspan(overlap, std::tuple{0, block_size()}), block);
 
     // Save overlap for next iteration
-    copy(padding, overlap);
+    auto const tail_size = transform_size() - block_size();
+    for (size_type i{0}; i < tail_size; ++i) {
+        overlap[i] = overlap[i + block_size()];
+    }
+    fill(stdex::submdspan(overlap, std::tuple{tail_size, transform_size()}), real_type(0));
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From afabd2a0b9e5da77fa1fcf914500748c539b15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:13 +0000
Subject: [PATCH 07/48] fix: slide the overlap_save window by one block for
 every block size

Block sizes that do not divide the transform size left stale samples in
the window.
---
 src/neo/convolution/overlap_save.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..4335f78 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,9 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const step = block_size();
+        for (size_type i{0}; i + step < transform_size(); ++i) {
+            window[i] = window[i + step];
         }
     }
 
-- 
2.43.0


From e199116639abd7f0c26119c923bd52e39a8cd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:00 +0000
Subject: [PATCH 08/48] fix: do not overwrite a partially filled input block in
 overlap_add_convolver

The input block shared its buffer with the inverse transform's output, so
a chunk ending inside a block corrupted the samples already received.
---
 src/neo/convolution/overlap_add_convolver.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..c51818d 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -59,6 +60,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input          = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -76,6 +78,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input           = _input.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -87,9 +90,10 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
+        auto const sub_input  = stdex::submdspan(input, std::tuple{_input_pos, _input_pos + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, sub_input);
+        rfft(_rfft, input, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -126,7 +130,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From f65748cf7697d8afd8b31de3d893f754469f6bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:00 +0000
Subject: [PATCH 09/48] fix: restart overlap_add_convolver when a filter is
 installed

The input position and delay-line segment of the previous filter were kept.
---
 src/neo/convolution/overlap_add_convolver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index c51818d..f9b42c5 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -58,6 +58,9 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _block_size   = f.extent(1) - 1;
     _num_segments = f.extent(0);
 
+    _input_pos       = 0;
+    _current_segment = 0;
+
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _input          = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-- 
2.43.0


From 029928e1745b53f3e27432b541d82399cfa81e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:00 +0000
Subject: [PATCH 10/48] fix: accept single-sample operands in fft_convolver

fft_convolve only excludes empty operands, but the convolver asserted at
least two samples.
---
 src/neo/convolution/fft_convolver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/fft_convolver.hpp b/src/neo/convolution/fft_convolver.hpp
index b521373..b45a579 100644
--- a/src/neo/convolution/fft_convolver.hpp
+++ b/src/neo/convolution/fft_convolver.hpp
@@ -21,8 +21,8 @@ struct fft_convolver
 {
     fft_convolver(std::size_t signal_size, std::size_t patch_size) : _signal_size{signal_size}, _patch_size{patch_size}
     {
-        assert(_signal_size > 1);
-        assert(_patch_size > 1);
+        assert(_signal_size > 0);
+        assert(_patch_size > 0);
     }
 
     [[nodiscard]] auto signal_size() const noexcept -> std::size_t { return _signal_size; }
-- 
2.43.0


From c6b6bc098ccdfe7b901bc38928187de68f177768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:23 +0000
Subject: [PATCH 11/48] fix: span the stft window over the frame instead of the
 padded transform

---
 src/neo/fft/stft.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/stft.hpp b/src/neo/fft/stft.hpp
index c017577..09a56e6 100644
--- a/src/neo/fft/stft.hpp
+++ b/src/neo/fft/stft.hpp
@@ -50,7 +50,11 @@ struct stft_plan
 
     explicit stft_plan(stft_options<Float> options) : _options{std::move(options)}
     {
-        fill_window(_window.to_mdspan(), _options.window);
+        // The window spans the frame, not the zero-padded transform
+        fill_window(
+            stdex::submdspan(_window.to_mdspan(), std::tuple{std::size_t(0), _options.frame_size}),
+            _options.window
+        );
     }
 
     template<in_matrix InMat>
-- 
2.43.0


From 5eb20fd366f98c3ce18abc39a7282b58495be713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:23 +0000
Subject: [PATCH 12/48] fix: return one for Hann and Hamming windows of a
 single sample

---
 src/neo/math/windowing.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/neo/math/windowing.hpp b/src/neo/math/windowing.hpp
index af8f640..2871457 100644
--- a/src/neo/math/windowing.hpp
+++ b/src/neo/math/windowing.hpp
@@ -34,6 +34,10 @@ struct hann_window
 
     [[nodiscard]] auto operator()(std::integral auto index, std::integral auto size) const noexcept -> Float
     {
+        if (size == 1) {
+            return Float(1);
+        }
+
         auto const n      = static_cast<Float>(size - 1);
         auto const two_pi = static_cast<Float>(std::numbers::pi) * Float(2);
         return Float(0.5) * (Float(1) - std::cos(two_pi * static_cast<Float>(index) / n));
@@ -50,6 +54,10 @@ struct hamming_window
 
     [[nodiscard]] auto operator()(std::integral auto index, std::integral auto size) const noexcept -> Float
     {
+        if (size == 1) {
+            return Float(1);
+        }
+
         auto const n      = static_cast<Float>(size - 1);
         auto const two_pi = static_cast<Float>(std::numbers::pi) * Float(2);
         return Float(0.54) - Float(0.46) * std::cos(two_pi * static_cast<Float>(index) / n);
-- 
2.43.0


From 3fb48499d79800b44ed2b94f6936025439f53918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:53 +0000
Subject: [PATCH 13/48] fix: overwrite an existing element in
 csr_matrix::insert

---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 765145d7783be841b0036f24d719a7b1614072be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:53 +0000
Subject: [PATCH 14/48] fix: write every output column in multiply_add with a
 sparse row

---
 src/neo/algorithm/multiply_add.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/neo/algorithm/multiply_add.hpp b/src/neo/algorithm/multiply_add.hpp
index 6bd65a6..2a1df60 100644
--- a/src/neo/algorithm/multiply_add.hpp
+++ b/src/neo/algorithm/multiply_add.hpp
@@ -317,9 +317,28 @@ auto multiply_add(
     auto const& rcols = y.column_container();
     auto const& rvals = y.value_container();
 
-    for (auto i{rrows[y_row]}; i < rrows[y_row + 1]; ++i) {
-        auto col = rcols[i];
-        out[col] = x[col] * rvals[i] + z[col];
+    // Columns without a stored element are unaffected, if z is updated in place
+    auto in_place = false;
+    if constexpr (requires { z.data_handle() == out.data_handle() and z.mapping() == out.mapping(); }) {
+        in_place = z.data_handle() == out.data_handle() and z.mapping() == out.mapping();
+    }
+
+    if (in_place) {
+        for (auto i{rrows[y_row]}; i < rrows[y_row + 1]; ++i) {
+            auto col = rcols[i];
+            out[col] = x[col] * rvals[i] + z[col];
+        }
+        return;
+    }
+
+    auto i = rrows[y_row];
+    for (std::size_t col{0}; col < y.columns(); ++col) {
+        if (i < rrows[y_row + 1] and std::cmp_equal(rcols[i], col)) {
+            out[col] = x[col] * rvals[i] + z[col];
+            ++i;
+        } else {
+            out[col] = z[col];
+        }
     }
 }
 
-- 
2.43.0


From 96ece6dd1af70f8a926ece87513bee0d498ff94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:51 +0000
Subject: [PATCH 15/48] fix: take the extent of a split-complex source from its
 real part in copy

---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..64f6d0c 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.real.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From 9e00e8df70927a13610570c5178ceead2675a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:13 +0000
Subject: [PATCH 16/48] fix: do not let silent channels limit the gain in
 normalize_impulse

---
 src/neo/algorithm/normalize_energy.hpp    | 19 ++++++++++++++++++-
 src/neo/convolution/normalize_impulse.hpp | 10 +++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/neo/algorithm/normalize_energy.hpp b/src/neo/algorithm/normalize_energy.hpp
index 33a2591..df3233a 100644
--- a/src/neo/algorithm/normalize_energy.hpp
+++ b/src/neo/algorithm/normalize_energy.hpp
@@ -14,9 +14,11 @@
 
 namespace neo {
 
+namespace detail {
+
 template<in_object InObj>
     requires std::floating_point<typename InObj::value_type>
-[[nodiscard]] auto normalize_energy_factor(InObj obj) noexcept
+[[nodiscard]] auto energy(InObj obj) noexcept
 {
     using Float = typename InObj::value_type;
 
@@ -34,6 +36,12 @@ template<in_object InObj>
         }
     }
 
+    return energy;
+}
+
+template<std::floating_point Float>
+[[nodiscard]] auto energy_to_factor(Float energy) noexcept -> Float
+{
     if (float_equality::exact(energy, Float(0))) {
         return Float(1);
     }
@@ -41,6 +49,15 @@ template<in_object InObj>
     return Float(1) / std::sqrt(energy);
 }
 
+}  // namespace detail
+
+template<in_object InObj>
+    requires std::floating_point<typename InObj::value_type>
+[[nodiscard]] auto normalize_energy_factor(InObj obj) noexcept
+{
+    return detail::energy_to_factor(detail::energy(obj));
+}
+
 // energy = sum(obj^2)
 // return obj / sqrt(energy)
 template<inout_object InOutObj>
diff --git a/src/neo/convolution/normalize_impulse.hpp b/src/neo/convolution/normalize_impulse.hpp
index cf5c35e..669570a 100644
--- a/src/neo/convolution/normalize_impulse.hpp
+++ b/src/neo/convolution/normalize_impulse.hpp
@@ -21,14 +21,14 @@ auto normalize_impulse(InOutObj obj) noexcept -> void
             return;
         }
 
-        auto channel0 = stdex::submdspan(obj, 0, stdex::full_extent);
-        auto factor   = normalize_energy_factor(channel0);
-        for (Index ch{1}; ch < obj.extent(0); ++ch) {
+        // A silent channel must not limit the gain of the others
+        auto energy = value_type_t<InOutObj>(0);
+        for (Index ch{0}; ch < obj.extent(0); ++ch) {
             auto channel = stdex::submdspan(obj, ch, stdex::full_extent);
-            factor       = std::min(factor, normalize_energy_factor(channel));
+            energy       = std::max(energy, neo::detail::energy(channel));
         }
 
-        scale(factor, obj);
+        scale(neo::detail::energy_to_factor(energy), obj);
     }
 }
 
-- 
2.43.0


From c9864c250483a4305835eed272d9fb0ec8096672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 17/48] fix: use the right-hand imaginary part in
 fixed_point_complex multiplication

---
 src/neo/fixed_point/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/complex.hpp b/src/neo/fixed_point/complex.hpp
index dc51f32..6cce59f 100644
--- a/src/neo/fixed_point/complex.hpp
+++ b/src/neo/fixed_point/complex.hpp
@@ -63,7 +63,7 @@ struct fixed_point_complex
         auto const lre = lhs.real().value();
         auto const lim = lhs.imag().value();
         auto const rre = rhs.real().value();
-        auto const rim = lhs.imag().value();
+        auto const rim = rhs.imag().value();
 
         return fixed_point_complex{
             FixedPoint{underlying_value, static_cast<Int>(((lre * rre) >> shift) - ((lim * rim) >> shift))},
-- 
2.43.0


From a51852c6ad1001fd5bba529ea126208af5ca94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 18/48] fix: saturate floats before the integer conversion in
 fixed_point

---
 src/neo/fixed_point/fixed_point.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..2dd729b 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -20,6 +20,19 @@ constexpr auto saturate(std::int32_t x) -> IntType
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
+template<typename IntType>
+constexpr auto saturate(float x) -> IntType
+{
+    // The conversion of a float that does not fit in the integer type is undefined.
+    if (x >= static_cast<float>(std::numeric_limits<IntType>::max())) {
+        return std::numeric_limits<IntType>::max();
+    }
+    if (x <= static_cast<float>(std::numeric_limits<IntType>::min())) {
+        return std::numeric_limits<IntType>::min();
+    }
+    return static_cast<IntType>(x);
+}
+
 }  // namespace detail
 
 struct underlying_value_t
@@ -44,7 +57,7 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{detail::saturate<storage_type>(static_cast<float>(val) * scale)}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From ddecf148e1d76408d6591caf689fbbece5151657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 19/48] fix: keep the sign of products in the fixed_point SSE
 kernels

---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From 66918fe2b451bb1fe9cd433718fc8d35a8d3a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 20/48] fix: saturate the product of two negative full scale
 q15 values in SIMD kernels

---
 src/neo/fixed_point/simd.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..b13a920 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -57,7 +57,9 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 wraps around to -1, saturate
+        auto const product = _mm_mulhrs_epi16(lhs, rhs);
+        return _mm_xor_si128(product, _mm_cmpeq_epi16(product, _mm_set1_epi16(-32768)));
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +81,9 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 wraps around to -1, saturate
+        auto const product = _mm256_mulhrs_epi16(lhs, rhs);
+        return _mm256_xor_si256(product, _mm256_cmpeq_epi16(product, _mm256_set1_epi16(-32768)));
     } else {
         assert(false);
     }
@@ -92,7 +96,10 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 wraps around to -1, saturate
+        auto const product = _mm512_mulhrs_epi16(lhs, rhs);
+        auto const wrapped = _mm512_cmpeq_epi16_mask(product, _mm512_set1_epi16(-32768));
+        return _mm512_mask_blend_epi16(wrapped, product, _mm512_set1_epi16(32767));
     } else {
         assert(false);
     }
-- 
2.43.0


From 37b4bf544c057c37723c46057779490b33ac648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:00 +0000
Subject: [PATCH 21/48] fix: round zero up to one in bit_ceil_fallback

---
 src/neo/bit/bit_ceil.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/bit/bit_ceil.hpp b/src/neo/bit/bit_ceil.hpp
index ffffddd..61eeabd 100644
--- a/src/neo/bit/bit_ceil.hpp
+++ b/src/neo/bit/bit_ceil.hpp
@@ -12,6 +12,10 @@ namespace detail {
 template<std::unsigned_integral UInt>
 [[nodiscard]] constexpr auto bit_ceil_fallback(UInt x) noexcept -> UInt
 {
+    if (x == UInt(0)) {
+        return UInt(1);
+    }
+
     --x;
     x |= (x >> 1);
     x |= (x >> 2);
-- 
2.43.0


From a4655419d1404157e8f7ef16e0fff92cd55655aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:25 +0000
Subject: [PATCH 22/48] fix: saturate values outside of full scale in
 compressed_fdl

---
 src/neo/convolution/compressed_fdl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neo/convolution/compressed_fdl.hpp b/src/neo/convolution/compressed_fdl.hpp
index e43391a..114069c 100644
--- a/src/neo/convolution/compressed_fdl.hpp
+++ b/src/neo/convolution/compressed_fdl.hpp
@@ -7,6 +7,7 @@
 #include <neo/container/compressed_accessor.hpp>
 #include <neo/container/mdspan.hpp>
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -38,7 +39,8 @@ struct compressed_fdl
         auto const compress = [](auto val) {
             using int_type         = typename IntComplex::value_type;
             constexpr auto max_val = std::numeric_limits<int_type>::max();
-            return static_cast<int_type>(std::lround(val * static_cast<float>(max_val)));
+            auto const clamped     = std::clamp(val, decltype(val)(-1), decltype(val)(1));
+            return static_cast<int_type>(std::lround(clamped * static_cast<float>(max_val)));
         };
 
         auto const fdl = stdex::submdspan(_fdl.to_mdspan(), index, stdex::full_extent);
-- 
2.43.0


From 87a47404b8251eb5ae6454cb1c7777da4ac59344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:17 +0000
Subject: [PATCH 23/48] fix: give ConstantOverlapAdd unity gain

The compensation factor was the one for a Hann window, whose overlapping
copies add up to half of the number of frames covering a sample. With the
rectangular window in use every frame size and hop came out at twice the
input level.
---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index a771fe6..f78c41a 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -204,8 +204,8 @@ void ConstantOverlapAdd<Float>::createWindow()
     auto type = juce::dsp::WindowingFunction<SampleType>::rectangular;
     juce::dsp::WindowingFunction<SampleType>::fillWindowingTables(_window.data(), (size_t)_frameSize, type, false);
 
-    auto const hopSizeCompensateFactor
-        = (SampleType)1 / ((SampleType)_frameSize / (SampleType)_hopSize / (SampleType)2);
+    // every sample is covered by frameSize/hopSize rectangular windows
+    auto const hopSizeCompensateFactor = (SampleType)_hopSize / (SampleType)_frameSize;
     juce::FloatVectorOperations::multiply(_window.data(), hopSizeCompensateFactor, _frameSize);
 }
 
-- 
2.43.0


From 512fd176be9ca931fb2f0db6d09f6acb90185ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:43 +0000
Subject: [PATCH 24/48] fix: start ConstantOverlapAdd from silence after
 prepare()

prepare() restarted the read and write positions, but left the output
buffer with uninitialised memory or with samples of the previous stream,
which were played during the first frame.
---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index f78c41a..e3b7328 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -65,6 +65,12 @@ void ConstantOverlapAdd<Float>::prepare(juce::dsp::ProcessSpec const& spec)
     int const m  = k * _hopSize + (_frameSize - _hopSize);
 
     _output.setSize((int)spec.numChannels, m + bufferSize - 1);
+
+    // setSize() leaves new memory uninitialised and keeps the old samples if the size did not change
+    _unusedInput.clear();
+    _frame.clear();
+    _output.clear();
+
     _outputOffset     = _frameSize - 1;
     _unusedInputCount = 0;
 
-- 
2.43.0


From e8b810e97de22b53c04dca7c40a745ce1c090469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:46 +0000
Subject: [PATCH 25/48] fix: do not read past the impulse response in
 DenseConvolution

Loading an impulse response with fewer channels than the bus (a mono file
on a stereo track) took the filter partitions of a channel that does not
exist.
---
 extra/plugin/src/dsp/DenseConvolution.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index fc9f3ca..f2e683e 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -88,7 +88,9 @@ auto DenseConvolution::updateImpulseResponse() -> void
         neo::convolution::normalize_impulse(matrix.to_mdspan());
         _filter = neo::convolution::uniform_partition(matrix.to_mdspan(), _spec->maximumBlockSize);
         for (auto ch{0U}; ch < _spec->numChannels; ++ch) {
-            auto channel = stdex::submdspan(_filter.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+            // an impulse with fewer channels than the bus is shared by the remaining ones
+            auto const idx = std::min<std::size_t>(ch, _filter.extent(0) - 1U);
+            auto channel   = stdex::submdspan(_filter.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
             _convolvers[ch].filter(channel);
         }
     } else {
-- 
2.43.0


From 816b78606c1c7e3a4b516a16505e576647655b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:20 +0000
Subject: [PATCH 26/48] fix: forget earlier audio when DenseConvolution is
 reset

reset() cleared the buffers of the frame adapter, but left the delay lines
of the convolvers, so the tail of the previous audio was played into the
next stream.
---
 extra/plugin/src/dsp/DenseConvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index f2e683e..884fca4 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -73,7 +73,7 @@ auto DenseConvolution::processFrame(juce::dsp::ProcessContextReplacing<float> co
     }
 }
 
-auto DenseConvolution::resetFrame() -> void {}
+auto DenseConvolution::resetFrame() -> void { updateImpulseResponse(); }
 
 auto DenseConvolution::updateImpulseResponse() -> void
 {
-- 
2.43.0


From 76aa3188f6997e9e5b8e7ee68ffbdfc77a325707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:10 +0000
Subject: [PATCH 27/48] fix: crop or zero-pad the input of the python fft to n
 elements

A transform size other than the length of the array was passed on to a
plan of that size, which read or wrote past the end of the arrays.
---
 extra/python/src/main.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 77cebc0..93246bd 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -13,6 +13,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <bit>
 #include <complex>
 #include <cstdio>
@@ -144,14 +145,22 @@ auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::nor
         {
             auto no_gil = py::gil_scoped_release{};
 
+            // crop or zero-pad the input to the requested size
+            auto const count = std::min(size, static_cast<std::size_t>(input.extent(0)));
+            neo::copy(
+                stdex::submdspan(input, std::tuple{std::size_t(0), count}),
+                stdex::submdspan(out, std::tuple{std::size_t(0), count})
+            );
+            neo::fill(stdex::submdspan(out, std::tuple{count, size}), Complex{});
+
             auto plan = neo::fft::fft_plan<Complex>{neo::fft::from_order, order};
             if constexpr (Dir == neo::fft::direction::forward) {
-                neo::fft::fft(plan, input, out);
+                neo::fft::fft(plan, out);
                 if (norm == neo::fft::norm::forward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
             } else {
-                neo::fft::ifft(plan, input, out);
+                neo::fft::ifft(plan, out);
                 if (norm == neo::fft::norm::backward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
-- 
2.43.0


From 6587a660189c94b2d23679298fc6cdc46f007a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:02 +0000
Subject: [PATCH 28/48] fix: read numpy arrays with negative or padded strides
 as they are laid out

Strides were divided by the item size and converted to an unsigned number
of elements, so fields of structured arrays were read from the wrong
addresses and reversed views only worked by wrapping around.
---
 extra/python/src/main.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 93246bd..cd1f2ac 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -127,12 +127,19 @@ auto as_mdspan(py::array_t<T, Flags> buf, auto func)
     throw std::runtime_error("unsupported ndim: " + std::to_string(dim));
 }
 
+// mdspan strides are unsigned and count elements, numpy strides are signed and count bytes
+template<typename T>
+[[nodiscard]] auto as_contiguous(py::array_t<T> buf) -> py::array_t<T, py::array::c_style | py::array::forcecast>
+{
+    return py::array_t<T, py::array::c_style | py::array::forcecast>(buf);
+}
+
 template<neo::complex Complex, neo::fft::direction Dir>
 auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::norm norm) -> py::array_t<Complex>
 {
     using Float = neo::value_type_t<Complex>;
 
-    return as_mdspan<1>(array, [n, norm](neo::in_vector auto input) -> py::array_t<Complex> {
+    return as_mdspan<1>(as_contiguous(array), [n, norm](neo::in_vector auto input) -> py::array_t<Complex> {
         auto const size  = n.value_or(input.extent(0));
         auto const order = neo::fft::next_order(size);
         if (not std::has_single_bit(size)) {
@@ -183,8 +190,11 @@ convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
 
-    auto const signal = to_mdspan_layout_stride<1>(in1);
-    auto const patch  = to_mdspan_layout_stride<1>(in2);
+    auto const contiguous1 = as_contiguous(in1);
+    auto const contiguous2 = as_contiguous(in2);
+
+    auto const signal = to_mdspan_layout_stride<1>(contiguous1);
+    auto const patch  = to_mdspan_layout_stride<1>(contiguous2);
 
     if (mode == neo::convolution::mode::full) {
         auto output      = py::array_t<Float>(static_cast<py::ssize_t>(signal.extent(0) + patch.extent(0) - 1));
-- 
2.43.0


From 4c81e767b83f33b79539ba865415fb7b5a229a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:02 +0000
Subject: [PATCH 29/48] fix: check both operands of the python convolve

The dimension of in1 was tested twice, so a multi-dimensional in2 was
treated as its first row or read out of bounds, and empty operands were
convolved into an output that is one element short.
---
 extra/python/src/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index cd1f2ac..8aa4f42 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -186,9 +186,12 @@ template<neo::convolution::method Method, std::floating_point Float>
 [[nodiscard]] auto
 convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode mode) -> py::array_t<Float>
 {
-    if (in1.ndim() != 1 or in1.ndim() != 1) {
+    if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
+    if (in1.size() == 0 or in2.size() == 0) {
+        throw std::runtime_error{"unsupported size: in1 and in2 must not be empty"};
+    }
 
     auto const contiguous1 = as_contiguous(in1);
     auto const contiguous2 = as_contiguous(in2);
-- 
2.43.0


From c412ae1f81caa138024881ab176d707686a94ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:12 +0000
Subject: [PATCH 30/48] fix: fail when there is nothing to convolve in the
 command-line tool

Two files that could not be loaded agree in channel count and sample
rate, so the tool wrote an empty output file and reported success.
---
 extra/cli/src/convolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 95579e9..8b7bd63 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -72,6 +72,10 @@ auto main(int argc, char** argv) -> int
     auto const output_length_seconds = static_cast<double>(output_length) / signal_sr;
     auto const block_size            = 8192 * 4;
 
+    if (signal.size() == 0 or filter.size() == 0) {
+        fmt::println("Nothing to convolve: signal = {} filter = {} frames", int(signal.extent(1)), int(filter.extent(1)));
+        return EXIT_FAILURE;
+    }
     if (signal.extent(0) != filter.extent(0)) {
         fmt::println("Channel mismatch: signal = {} filter = {}", int(signal.extent(0)), int(filter.extent(0)));
         return EXIT_FAILURE;
-- 
2.43.0


From 682de8f9ca5f93da9e9e95e63a8b9c944661f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 31/48] fix: report output that could not be written in the
 command-line tool

---
 extra/cli/src/convolver.cpp | 12 +++++++++---
 extra/cli/src/wav.hpp       | 18 ++++++++++++++----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 8b7bd63..72ca932 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -108,7 +108,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -123,7 +125,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -139,7 +143,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA16: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
diff --git a/extra/cli/src/wav.hpp b/extra/cli/src/wav.hpp
index 1a85a89..b7be6fa 100644
--- a/extra/cli/src/wav.hpp
+++ b/extra/cli/src/wav.hpp
@@ -85,8 +85,8 @@ template<std::floating_point Float>
     }
 }
 
-inline auto
-write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> void
+[[nodiscard]] inline auto
+write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> bool
 {
     auto format          = drwav_data_format{};
     format.container     = drwav_container_riff;
@@ -97,8 +97,18 @@ write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesy
 
     auto path_str = path.string();
     auto wav_file = drwav{};
-    drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr);
-    drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
+    if (not drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr)) {
+        fmt::println("Could not open wav-file for writing at: {}", path_str.c_str());
+        return false;
+    }
+
+    auto const written = drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
     drwav_uninit(&wav_file);
+    if (written != buffer.extent(1)) {
+        fmt::println("Frames written size mismatch, expected: {} actual: {}", int(buffer.extent(1)), int(written));
+        return false;
+    }
+
+    return true;
 }
 }  // namespace neo
-- 
2.43.0


From 8deddb9053a4a8c6f35132c5ea08f28649e4824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:57 +0000
Subject: [PATCH 32/48] fix: weight the bins of the power spectrum image by
 their own frequency

---
 extra/plugin/src/dsp/Spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra/plugin/src/dsp/Spectrum.cpp b/extra/plugin/src/dsp/Spectrum.cpp
index 01bf96a..da2d80a 100644
--- a/extra/plugin/src/dsp/Spectrum.cpp
+++ b/extra/plugin/src/dsp/Spectrum.cpp
@@ -27,8 +27,8 @@ auto powerSpectrumImage(
         return 1.0F / max;
     }();
 
-    auto const fillPixel = [=](auto& img, int x, int y, auto bin) {
-        auto const weight     = weighting(static_cast<std::size_t>(y));
+    auto const fillPixel = [=](auto& img, int x, int y, int binIdx, auto bin) {
+        auto const weight     = weighting(static_cast<std::size_t>(binIdx));
         auto const power      = bin * bin;
         auto const normalized = power * scale;
         auto const dB         = neo::amplitude_to_db(normalized, -144.0F) * 0.5F + weight;
@@ -44,7 +44,7 @@ auto powerSpectrumImage(
     for (auto frameIdx{0}; frameIdx < numFrames; ++frameIdx) {
         for (auto binIdx{0}; binIdx < numBins; ++binIdx) {
             auto const bin = frames(frameIdx, binIdx);
-            fillPixel(img, frameIdx, numBins - binIdx - 1, std::abs(bin));
+            fillPixel(img, frameIdx, numBins - binIdx - 1, binIdx, std::abs(bin));
         }
     }
 
-- 
2.43.0


From 67a6fe3fd4f765e4e3a7a1615d5bb35e32ec30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:35 +0000
Subject: [PATCH 33/48] fix: transform a single element with the experimental
 complex plan

The first stage of the interleaved radix-2 kernel always combined two
elements. A plan of order 0, which experimental::rfft_plan uses for a signal
of two samples, read and wrote one element past the end of its buffer.
---
 src/neo/fft/experimental/rfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..df7ca6f 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < size; k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From 061952dae3e8489c687a6783b0499dcca457e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:09 +0000
Subject: [PATCH 34/48] fix: pack the DFT of the real input in the experimental
 real plan

The recombination step used the twiddles of the opposite direction, so that the
packed coefficients of a forward transform were neither those of the DFT nor
their conjugates for any size above 2.
---
 src/neo/fft/experimental/rfft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index df7ca6f..da0d10c 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,11 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n >= 4) {
+            // X[n/4] = E[n/4] + exp(-i*pi/2) * O[n/4], the conjugate of the packed coefficient
+            x[(n >> 1) + 1] = -x[(n >> 1) + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 6ef11d7e096ce228c351b985fadd3db4d65a6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:09 +0000
Subject: [PATCH 35/48] fix: accept const and strided half spectra in the IPP
 real plan

The inverse transform cast away the constness of its input, and the strided path
looked for real() and imag() of neo's complex types by argument-dependent
lookup, where they are not found. Neither compiled.
---
 src/neo/fft/backend/ipp.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 1d77245..bc5bb0f 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -9,13 +9,20 @@
 #include <neo/container/mdspan.hpp>
 #include <neo/fft/direction.hpp>
 #include <neo/fft/order.hpp>
+#include <neo/math/imag.hpp>
+#include <neo/math/real.hpp>
 #include <neo/type_traits/always_false.hpp>
 
 #include <ipp.h>
 
+#include <algorithm>
+#include <array>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <string>
+#include <string_view>
+#include <tuple>
 
 namespace neo::fft {
 
@@ -443,13 +450,13 @@ struct intel_ipp_rfft_plan
     {
         if constexpr (always_vectorizable<InVec> and always_vectorizable<OutVec>
                       and (sizeof(complex_type) == sizeof(Float) * 2)) {
-            auto* const in_ptr = reinterpret_cast<Float*>(in.data_handle());
+            auto const* const in_ptr = reinterpret_cast<Float const*>(in.data_handle());
             setup::backward_copy(in_ptr, out.data_handle(), _handle, _work_buf.get());
         } else {
             auto buf = _buffer.to_mdspan();
             for (auto i{0U}; i < in.size(); ++i) {
-                buf[i * 2]     = real(in[i]);
-                buf[i * 2 + 1] = imag(in[i]);
+                buf[i * 2]     = math::real(in[i]);
+                buf[i * 2 + 1] = math::imag(in[i]);
             }
 
             setup::backward_inplace(_buffer.data(), _handle, _work_buf.get());
-- 
2.43.0


From aaea36fa0c6f7af52851a1db8930613565c2e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 36/48] fix: transform strided split-complex data with the IPP
 and vDSP plans

Views without a contiguous layout were accepted and left untransformed. The
out-of-place vDSP plan did not compile for const input.
---
 src/neo/fft/backend/ipp.hpp  | 13 ++++++++++---
 src/neo/fft/backend/vdsp.hpp | 29 ++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index bc5bb0f..fbbcc9a 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -11,7 +11,6 @@
 #include <neo/fft/order.hpp>
 #include <neo/math/imag.hpp>
 #include <neo/math/real.hpp>
-#include <neo/type_traits/always_false.hpp>
 
 #include <ipp.h>
 
@@ -341,7 +340,13 @@ struct intel_ipp_split_fft_plan
         if constexpr (always_vectorizable<InOutVec>) {
             transform(x.real.data_handle(), x.imag.data_handle(), _handle, _work_buf.get());
         } else {
-            always_false<InOutVec>;
+            auto const re = stdex::submdspan(_buffer.to_mdspan(), 0, stdex::full_extent);
+            auto const im = stdex::submdspan(_buffer.to_mdspan(), 1, stdex::full_extent);
+            copy(x.real, re);
+            copy(x.imag, im);
+            transform(re.data_handle(), im.data_handle(), _handle, _work_buf.get());
+            copy(re, x.real);
+            copy(im, x.imag);
         }
     }
 
@@ -363,7 +368,9 @@ struct intel_ipp_split_fft_plan
                 _work_buf.get()
             );
         } else {
-            always_false<InVec>;
+            copy(in.real, out.real);
+            copy(in.imag, out.imag);
+            (*this)(out, dir);
         }
     }
 
diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 217c4e1..513ccfa 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -9,7 +9,6 @@
 #include <neo/container/mdspan.hpp>
 #include <neo/fft/direction.hpp>
 #include <neo/fft/order.hpp>
-#include <neo/type_traits/always_false.hpp>
 
 #include <Accelerate/Accelerate.h>
 
@@ -249,19 +248,26 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(split_complex<InOutVec> x, dir
 
     auto const sign = dir == direction::forward ? kFFTDirection_Forward : kFFTDirection_Inverse;
 
-    if constexpr (always_vectorizable<InOutVec>) {
-        auto const split_x = split_complex{
-            .realp = x.real.data_handle(),
-            .imagp = x.imag.data_handle(),
-        };
+    auto const transform = [this, sign](Float* re, Float* im) {
+        auto const split_x = split_complex{.realp = re, .imagp = im};
 
         if constexpr (std::same_as<Float, float>) {
             vDSP_fft_zip(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         } else {
             vDSP_fft_zipD(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         }
+    };
+
+    if constexpr (always_vectorizable<InOutVec>) {
+        transform(x.real.data_handle(), x.imag.data_handle());
     } else {
-        always_false<InOutVec>;
+        auto const re = stdex::submdspan(_input.to_mdspan(), 0, stdex::full_extent);
+        auto const im = stdex::submdspan(_input.to_mdspan(), 1, stdex::full_extent);
+        copy(x.real, re);
+        copy(x.imag, im);
+        transform(re.data_handle(), im.data_handle());
+        copy(re, x.real);
+        copy(im, x.imag);
     }
 }
 
@@ -282,7 +288,10 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
     auto const sign = dir == direction::forward ? kFFTDirection_Forward : kFFTDirection_Inverse;
 
     if constexpr (always_vectorizable<InVec, OutVec>) {
-        auto const split_in  = split_complex{.realp = in.real.data_handle(), .imagp = in.imag.data_handle()};
+        auto const split_in  = split_complex{
+            .realp = const_cast<Float*>(in.real.data_handle()),
+            .imagp = const_cast<Float*>(in.imag.data_handle()),
+        };
         auto const split_out = split_complex{.realp = out.real.data_handle(), .imagp = out.imag.data_handle()};
 
         if constexpr (std::same_as<Float, float>) {
@@ -291,7 +300,9 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
             vDSP_fft_zopD(_plan, &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InVec>;
+        copy(in.real, out.real);
+        copy(in.imag, out.imag);
+        (*this)(out, dir);
     }
 }
 
-- 
2.43.0


From fab68704851c01e3d0a91c1fe410ed0d54026740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 37/48] fix: release the setup of a vDSP plan that is assigned
 to

Move assignment overwrote the handle of the setup without destroying it, and
lost the setup on self-assignment.
---
 src/neo/fft/backend/vdsp.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 513ccfa..ec70544 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -43,11 +43,12 @@ struct apple_vdsp_fft_plan
 
     auto operator=(apple_vdsp_fft_plan&& other) noexcept -> apple_vdsp_fft_plan&
     {
-        _order  = std::exchange(other._order, size_type{0});
-        _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
-        _input  = std::move(other._input);
-        _output = std::move(other._output);
+        // the destructor of other releases the previous setup
+        std::swap(_order, other._order);
+        std::swap(_size, other._size);
+        std::swap(_plan, other._plan);
+        std::swap(_input, other._input);
+        std::swap(_output, other._output);
         return *this;
     }
 
@@ -169,11 +170,12 @@ struct apple_vdsp_split_fft_plan
 
     auto operator=(apple_vdsp_split_fft_plan&& other) noexcept -> apple_vdsp_split_fft_plan&
     {
-        _order  = std::exchange(other._order, size_type{0});
-        _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
-        _input  = std::move(other._input);
-        _output = std::move(other._output);
+        // the destructor of other releases the previous setup
+        std::swap(_order, other._order);
+        std::swap(_size, other._size);
+        std::swap(_plan, other._plan);
+        std::swap(_input, other._input);
+        std::swap(_output, other._output);
         return *this;
     }
 
-- 
2.43.0


From f5df0f13096ce4655a03c759f85df9b511bc751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 38/48] fix: report a vDSP setup that could not be created

Only an assertion guarded the plans against a null setup.
---
 src/neo/fft/backend/vdsp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index ec70544..b278ecf 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -13,6 +13,8 @@
 #include <Accelerate/Accelerate.h>
 
 #include <cassert>
+#include <stdexcept>
+#include <string>
 #include <utility>
 
 namespace neo::fft {
@@ -86,7 +88,9 @@ apple_vdsp_fft_plan<Complex>::apple_vdsp_fft_plan(from_order_tag /*tag*/, size_t
         }
     }()}
 {
-    assert(_plan != nullptr);
+    if (_plan == nullptr) {
+        throw std::runtime_error{"vdsp: creating the setup failed"};
+    }
 }
 
 template<typename Complex>
@@ -208,7 +212,9 @@ apple_vdsp_split_fft_plan<Float>::apple_vdsp_split_fft_plan(from_order_tag /*tag
         }
     }()}
 {
-    assert(_plan != nullptr);
+    if (_plan == nullptr) {
+        throw std::runtime_error{"vdsp: creating the setup failed"};
+    }
 }
 
 template<std::floating_point Float>
-- 
2.43.0


From 7bbe6ec0fe7bf3f0f6e26cb83d5320ddb6121e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 39/48] fix: release the descriptor of an MKL plan that is
 assigned to

Only the destructor of the plan freed the descriptor; move assignment replaced
the handle and leaked it.
---
 src/neo/fft/backend/mkl.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/neo/fft/backend/mkl.hpp b/src/neo/fft/backend/mkl.hpp
index ad4536f..204604f 100644
--- a/src/neo/fft/backend/mkl.hpp
+++ b/src/neo/fft/backend/mkl.hpp
@@ -11,6 +11,12 @@
 
 #include <mkl_dfti.h>
 
+#include <cassert>
+#include <memory>
+#include <stdexcept>
+#include <string>
+#include <type_traits>
+
 namespace neo::fft {
 
 /// \ingroup neo-fft
@@ -24,13 +30,6 @@ struct intel_mkl_fft_plan
 
     intel_mkl_fft_plan(from_order_tag /*tag*/, size_type order) : _order{order}, _handle{make(order)} {}
 
-    ~intel_mkl_fft_plan() noexcept
-    {
-        if (_handle) {
-            DftiFreeDescriptor(&_handle->ptr);
-        }
-    }
-
     intel_mkl_fft_plan(intel_mkl_fft_plan const& other)                    = delete;
     auto operator=(intel_mkl_fft_plan const& other) -> intel_mkl_fft_plan& = delete;
 
@@ -53,9 +52,9 @@ struct intel_mkl_fft_plan
 
         auto perform = [this, dir](auto* ptr) {
             if (dir == direction::forward) {
-                DftiComputeForward(_handle->ptr, static_cast<void*>(ptr));
+                DftiComputeForward(_handle.get(), static_cast<void*>(ptr));
             } else {
-                DftiComputeBackward(_handle->ptr, static_cast<void*>(ptr));
+                DftiComputeBackward(_handle.get(), static_cast<void*>(ptr));
             }
         };
 
@@ -69,12 +68,14 @@ struct intel_mkl_fft_plan
     }
 
 private:
-    struct handle_t
+    struct free_descriptor
     {
-        DFTI_DESCRIPTOR_HANDLE ptr;
+        auto operator()(DFTI_DESCRIPTOR_HANDLE handle) const noexcept -> void { DftiFreeDescriptor(&handle); }
     };
 
-    [[nodiscard]] static auto make(size_type order)
+    using handle_t = std::unique_ptr<std::remove_pointer_t<DFTI_DESCRIPTOR_HANDLE>, free_descriptor>;
+
+    [[nodiscard]] static auto make(size_type order) -> handle_t
     {
         if (order > max_order()) {
             throw std::runtime_error{"mkl: unsupported order '" + std::to_string(int(order)) + "'"};
@@ -91,11 +92,11 @@ private:
         DftiSetValue(handle, DFTI_PLACEMENT, DFTI_INPLACE);
         DftiCommitDescriptor(handle);
 
-        return std::make_unique<handle_t>(handle_t{.ptr = handle});
+        return handle_t{handle};
     }
 
     size_type _order;
-    std::unique_ptr<handle_t> _handle;
+    handle_t _handle;
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _buffer{size()};
 };
 
-- 
2.43.0


From ae882da888a76f43f34839a265cfbd4a91a9a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 40/48] fix: report an MKL descriptor that could not be set up

All status codes were ignored, so a plan whose setup failed left its data
untransformed.
---
 src/neo/fft/backend/mkl.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/neo/fft/backend/mkl.hpp b/src/neo/fft/backend/mkl.hpp
index 204604f..aef5cf9 100644
--- a/src/neo/fft/backend/mkl.hpp
+++ b/src/neo/fft/backend/mkl.hpp
@@ -88,11 +88,18 @@ private:
         auto* handle   = DFTI_DESCRIPTOR_HANDLE{};
         auto const len = ipow<size_type(2)>(order);
 
-        DftiCreateDescriptor(&handle, precision, domain, dimensions, len);
-        DftiSetValue(handle, DFTI_PLACEMENT, DFTI_INPLACE);
-        DftiCommitDescriptor(handle);
+        auto const check = [](auto status) {
+            if (status != DFTI_NO_ERROR) {
+                throw std::runtime_error{"mkl: setup failed with status " + std::to_string(status)};
+            }
+        };
+
+        check(DftiCreateDescriptor(&handle, precision, domain, dimensions, len));
+        auto plan = handle_t{handle};
+        check(DftiSetValue(handle, DFTI_PLACEMENT, DFTI_INPLACE));
+        check(DftiCommitDescriptor(handle));
 
-        return handle_t{handle};
+        return plan;
     }
 
     size_type _order;
-- 
2.43.0


From a6adae856166ac65a5ab05efe98401a2753b8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:23 +0000
Subject: [PATCH 41/48] fix: report IPP buffers that could not be allocated

A plan without its work buffer was handed out and failed in every transform.
---
 src/neo/fft/backend/ipp.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index fbbcc9a..1cf6e4b 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -18,6 +18,7 @@
 #include <array>
 #include <cassert>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -56,6 +57,15 @@ inline auto ipp_check(int status) -> void
     }
 }
 
+[[nodiscard]] inline auto ipp_alloc(int size) -> ipp_buffer
+{
+    auto buffer = ipp_buffer{size > 0 ? ::ippsMalloc_8u(size) : nullptr};
+    if (size > 0 and not buffer) {
+        throw std::bad_alloc{};
+    }
+    return buffer;
+}
+
 template<typename Setup>
 [[nodiscard]] auto make_ipp_fft_handle(std::size_t order
 ) -> std::tuple<typename Setup::handle_type*, ipp_buffer, ipp_buffer>
@@ -69,11 +79,11 @@ template<typename Setup>
     ipp_check(Setup::get_size(static_cast<int>(order), flag, hint, &spec_size, &init_size, &work_size));
 
     auto* handle        = static_cast<typename Setup::handle_type*>(nullptr);
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
+    auto spec_buf       = ipp_alloc(spec_size);
+    auto const init_buf = ipp_alloc(init_size);
     ipp_check(Setup::init(&handle, static_cast<int>(order), flag, hint, spec_buf.get(), init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), ipp_alloc(work_size)};
 }
 
 template<typename Setup>
@@ -88,12 +98,12 @@ template<typename Setup>
     auto work_size = 0;
     ipp_check(Setup::get_size(static_cast<int>(size), flag, hint, &spec_size, &init_size, &work_size));
 
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
+    auto const init_buf = ipp_alloc(init_size);
+    auto spec_buf       = ipp_alloc(spec_size);
     auto* handle        = reinterpret_cast<typename Setup::handle_type*>(spec_buf.get());
     ipp_check(Setup::init(static_cast<int>(size), flag, hint, handle, init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), ipp_alloc(work_size)};
 }
 
 template<typename Setup>
@@ -110,11 +120,11 @@ template<typename Setup>
     ipp_check(Setup::get_size(len, hint, &spec_size, &init_size, &work_size));
 
     auto* handle        = static_cast<typename Setup::handle_type*>(nullptr);
-    auto spec_buf       = ipp_buffer{::ippsMalloc_8u(spec_size)};
-    auto const init_buf = ipp_buffer{::ippsMalloc_8u(init_size)};
+    auto spec_buf       = ipp_alloc(spec_size);
+    auto const init_buf = ipp_alloc(init_size);
     ipp_check(Setup::init(&handle, len, hint, spec_buf.get(), init_buf.get()));
 
-    return {handle, std::move(spec_buf), ipp_buffer{::ippsMalloc_8u(work_size)}};
+    return {handle, std::move(spec_buf), ipp_alloc(work_size)};
 }
 
 }  // namespace detail
-- 
2.43.0


From 94cdc0d8e907101e1f328a0edcc227e097dda214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:21 +0000
Subject: [PATCH 42/48] fix: save parameter changes that have not reached the
 state tree

---
 extra/plugin/src/PluginProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/PluginProcessor.cpp b/extra/plugin/src/PluginProcessor.cpp
index b7c0cb0..8b54dcc 100644
--- a/extra/plugin/src/PluginProcessor.cpp
+++ b/extra/plugin/src/PluginProcessor.cpp
@@ -92,7 +92,7 @@ auto PluginProcessor::createEditor() -> juce::AudioProcessorEditor* { return new
 auto PluginProcessor::getStateInformation(juce::MemoryBlock& destData) -> void
 {
     juce::MemoryOutputStream stream(destData, false);
-    _valueTree.state.writeToStream(stream);
+    _valueTree.copyState().writeToStream(stream);  // includes changes the tree has not been told about yet
 }
 
 auto PluginProcessor::setStateInformation(void const* data, int sizeInBytes) -> void
-- 
2.43.0


From 2687cb463db233f977c7457947cfa6d1783878e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:08 +0000
Subject: [PATCH 43/48] fix: do not render without an impulse or load one that
 cannot be read

---
 extra/plugin/src/ui/BenchmarkTab.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index c5c932d..38b818c 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -178,7 +178,12 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
         return;
     }
 
-    _impulse     = loadAndResample(_formatManager, file, _spec.sampleRate);
+    auto loaded = loadAndResample(_formatManager, file, _spec.sampleRate);
+    if (loaded.buffer.getNumChannels() == 0 or loaded.buffer.getNumSamples() == 0) {
+        return;
+    }
+
+    _impulse     = std::move(loaded);
     _impulseFile = file;
 
     auto const filterMatrix = to_mdarray(_impulse.buffer);
@@ -271,6 +276,9 @@ auto BenchmarkTab::runBenchmarks() -> void
     if (_signal.buffer.getNumChannels() == 0 or _signal.buffer.getNumSamples() == 0) {
         return;
     }
+    if (_impulse.buffer.getNumChannels() == 0 or _impulse.buffer.getNumSamples() == 0) {
+        return;
+    }
 
     using Complex = std::complex<float>;
 
-- 
2.43.0


From a7daa6173486845f958e199e8aae1d1defa32af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:08 +0000
Subject: [PATCH 44/48] fix: accept impulses that are not longer than the first
 block

---
 extra/plugin/src/ui/BenchmarkTab.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 38b818c..83b92de 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -193,10 +193,14 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
     neo::convolution::normalize_impulse(impulse.to_mdspan());
 
     auto const blockSize = 512ULL;
-    _partitions          = neo::convolution::uniform_partition(
-        stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{blockSize, impulse.extent(1)}),
-        blockSize
-    );
+    if (impulse.extent(1) > blockSize) {
+        _partitions = neo::convolution::uniform_partition(
+            stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{blockSize, impulse.extent(1)}),
+            blockSize
+        );
+    } else {
+        _partitions = {};  // nothing follows the first block
+    }
 
     _fileInfo.setText(file.getFileName() + " (" + juce::String(_impulse.buffer.getNumSamples()) + ")\n");
     updateImages();
@@ -323,6 +327,10 @@ auto BenchmarkTab::runBenchmarks() -> void
 
 auto BenchmarkTab::runWeightingTests() -> void
 {
+    if (_partitions.size() == 0) {
+        return;
+    }
+
     auto const scale = [filter = _partitions.to_mdspan()] {
         auto max = 0.0F;
         for (auto ch{0U}; ch < filter.extent(0); ++ch) {
-- 
2.43.0


From d3859c590809f60be6cfd2565a281e3dc73496c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:08 +0000
Subject: [PATCH 45/48] fix: share an impulse with fewer channels than the
 signal when rendering

---
 extra/plugin/src/dsp/Convolution.hpp      | 3 ++-
 extra/plugin/src/dsp/DenseConvolution.cpp | 2 +-
 extra/plugin/src/dsp/DenseConvolution.hpp | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/extra/plugin/src/dsp/Convolution.hpp b/extra/plugin/src/dsp/Convolution.hpp
index dfebb1c..0fc375e 100644
--- a/extra/plugin/src/dsp/Convolution.hpp
+++ b/extra/plugin/src/dsp/Convolution.hpp
@@ -98,7 +98,8 @@ private:
         _convolvers.resize(_spec->numChannels);
 
         for (auto ch{0U}; ch < _spec->numChannels; ++ch) {
-            auto channel = stdex::submdspan(_filter.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+            auto const idx = std::min<std::size_t>(ch, _filter.extent(0) - 1U);
+            auto channel   = stdex::submdspan(_filter.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
             _convolvers[ch].filter(channel);
         }
     }
diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index 884fca4..b975b65 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -157,7 +157,7 @@ auto sparse_convolve(
 
     for (auto ch{0}; ch < signal.getNumChannels(); ++ch) {
         auto convolver               = neo::convolution::sparse_upola_convolver<std::complex<float>>{};
-        auto const channel           = static_cast<size_t>(ch);
+        auto const channel           = std::min(static_cast<size_t>(ch), partitions.extent(0) - 1U);
         auto const full              = stdex::full_extent;
         auto const channelPartitions = stdex::submdspan(partitions.to_mdspan(), channel, full, full);
 
diff --git a/extra/plugin/src/dsp/DenseConvolution.hpp b/extra/plugin/src/dsp/DenseConvolution.hpp
index ea2a24d..ae894f9 100644
--- a/extra/plugin/src/dsp/DenseConvolution.hpp
+++ b/extra/plugin/src/dsp/DenseConvolution.hpp
@@ -49,7 +49,9 @@ dense_convolve(juce::AudioBuffer<float> const& signal, juce::AudioBuffer<float>
 
     auto convolvers = std::vector<Convolver>(static_cast<std::size_t>(signal.getNumChannels()));
     for (auto ch{0U}; ch < static_cast<size_t>(signal.getNumChannels()); ++ch) {
-        auto channel = stdex::submdspan(partitions.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+        // an impulse with fewer channels than the signal is shared by the remaining ones
+        auto const idx = std::min<std::size_t>(ch, partitions.extent(0) - 1U);
+        auto channel   = stdex::submdspan(partitions.to_mdspan(), idx, stdex::full_extent, stdex::full_extent);
         convolvers[ch].filter(channel);
     }
 
-- 
2.43.0


From 46e6bb3e5063196b111b43989c9cc07c64a646d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:06 +0000
Subject: [PATCH 46/48] fix: do not touch the benchmark tab after the editor
 was closed

---
 extra/plugin/src/ui/BenchmarkTab.cpp | 38 +++++++++++++---------------
 extra/plugin/src/ui/BenchmarkTab.hpp |  6 ++---
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 83b92de..f988e85 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -387,10 +387,7 @@ auto BenchmarkTab::runJuceConvolutionBenchmark() -> void
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
-    });
+    appendInfo("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
     writeToWavFile(file, output, _spec.sampleRate, 32);
 }
@@ -409,10 +406,7 @@ auto BenchmarkTab::runNeoConvolutionBenchmark() -> void
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
-    });
+    appendInfo("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
     writeToWavFile(file, output, _spec.sampleRate, 32);
 }
@@ -445,10 +439,7 @@ auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
     auto const end = std::chrono::system_clock::now();
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret("TCONV2-DENSE: " + juce::String{elapsed.count()} + "\n");
-    });
+    appendInfo("TCONV2-DENSE: " + juce::String{elapsed.count()} + "\n");
 
     auto file   = getBenchmarkResultsDirectory().getNonexistentChildFile("tconv2", ".wav");
     auto output = to_mdarray(out);
@@ -472,11 +463,7 @@ auto BenchmarkTab::runSparseConvolverBenchmark() -> void
     auto const elapsed       = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
     auto const thresholdText = juce::String(juce::roundToInt(std::abs(thresholdDB) * 100));
 
-    juce::MessageManager::callAsync([this, elapsed, thresholdText] {
-        auto const line = "TCONV-SPARSE(" + thresholdText + "): " + juce::String{elapsed.count()} + "\n";
-        _fileInfo.moveCaretToEnd(false);
-        _fileInfo.insertTextAtCaret(line);
-    });
+    appendInfo("TCONV-SPARSE(" + thresholdText + "): " + juce::String{elapsed.count()} + "\n");
 
     auto const filename = "tconv_sparse_" + thresholdText;
     auto const file     = getBenchmarkResultsDirectory().getNonexistentChildFile(filename, ".wav");
@@ -525,18 +512,16 @@ auto BenchmarkTab::runSparseQualityTests() -> void
         return maxChannelRMSError(denseSpectogram, sparseSpectogram);
     };
 
-    juce::MessageManager::callAsync([this] { _fileInfo.moveCaretToEnd(false); });
-
     for (auto i{180}; i > 0; --i) {
         auto const range = juce::jmap(static_cast<double>(i), 1.0, 180.0, 1.0, 90.0);
         auto const rmse  = calculateErrorsForDynamicRange(static_cast<float>(range));
         auto const text  = "SPARSE-QUALITY(" + juce::String{range} + "): rmse = " + juce::String{rmse, 7}
                         + " rmse(dB) = " + juce::String{amplitude_to_db(rmse)} + "\n";
 
-        juce::MessageManager::callAsync([this, text] { _fileInfo.insertTextAtCaret(text); });
+        appendInfo(text);
     }
 
-    juce::MessageManager::callAsync([this] { _fileInfo.insertTextAtCaret("SPARSE-QUALITY: Done\n"); });
+    appendInfo("SPARSE-QUALITY: Done\n");
 }
 
 auto BenchmarkTab::updateImages() -> void
@@ -566,6 +551,17 @@ auto BenchmarkTab::updateImages() -> void
     repaint();
 }
 
+auto BenchmarkTab::appendInfo(juce::String const& text) -> void
+{
+    // the editor may be closed before the message arrives
+    juce::MessageManager::callAsync([tab = juce::Component::SafePointer<BenchmarkTab>{this}, text] {
+        if (tab != nullptr) {
+            tab->_fileInfo.moveCaretToEnd(false);
+            tab->_fileInfo.insertTextAtCaret(text);
+        }
+    });
+}
+
 auto BenchmarkTab::getBenchmarkResultsDirectory() -> juce::File
 {
     auto directory = juce::File::getSpecialLocation(juce::File::userMusicDirectory)
diff --git a/extra/plugin/src/ui/BenchmarkTab.hpp b/extra/plugin/src/ui/BenchmarkTab.hpp
index 863d1d8..98c7d80 100644
--- a/extra/plugin/src/ui/BenchmarkTab.hpp
+++ b/extra/plugin/src/ui/BenchmarkTab.hpp
@@ -56,16 +56,14 @@ private:
 
         auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
 
-        juce::MessageManager::callAsync([this, elapsed, name] {
-            _fileInfo.moveCaretToEnd(false);
-            _fileInfo.insertTextAtCaret(name + ": " + juce::String{elapsed.count()} + "\n");
-        });
+        appendInfo(name + ": " + juce::String{elapsed.count()} + "\n");
 
         auto file = getBenchmarkResultsDirectory().getNonexistentChildFile(name, ".wav");
         writeToWavFile(file, output, _spec.sampleRate, 32);
     }
 
     auto updateImages() -> void;
+    auto appendInfo(juce::String const& text) -> void;
 
     [[nodiscard]] static auto getBenchmarkResultsDirectory() -> juce::File;
 
-- 
2.43.0


From d210884ef6e760ed988615367e658cd387a7d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 47/48] fix: give benchmark jobs their own copy of what they
 render

---
 extra/plugin/src/ui/BenchmarkTab.cpp | 113 ++++++++++++++++-----------
 extra/plugin/src/ui/BenchmarkTab.hpp |  28 +++++--
 2 files changed, 86 insertions(+), 55 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index f988e85..6d2e0da 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -286,42 +286,58 @@ auto BenchmarkTab::runBenchmarks() -> void
 
     using Complex = std::complex<float>;
 
+    auto const input = std::make_shared<Input const>(Input{
+        .spec           = _spec,
+        .impulseFile    = _impulseFile,
+        .signal         = _signal,
+        .impulse        = _impulse,
+        .dynamicRange   = static_cast<float>(_dynamicRange.getValue()),
+        .binsToKeep     = static_cast<int>(_binsToKeep.getValue()),
+        .stftWindowSize = static_cast<int>(_stftWindowSize.getValue()),
+    });
+
     if (hasEngineEnabled("juce::dsp::Convolution")) {
-        _threadPool.addJob([this] { runJuceConvolutionBenchmark(); });
+        _threadPool.addJob([this, input] { runJuceConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("neo::Convolution")) {
-        _threadPool.addJob([this] { runNeoConvolutionBenchmark(); });
+        _threadPool.addJob([this, input] { runNeoConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("DenseConvolution")) {
-        _threadPool.addJob([this] { runDenseConvolutionBenchmark(); });
+        _threadPool.addJob([this, input] { runDenseConvolutionBenchmark(*input); });
     }
     if (hasEngineEnabled("upols_convolver")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upols_convolver<Complex>>("UPOLS"); });
+        _threadPool.addJob([this, input] {
+            runDenseBenchmark<neo::convolution::upols_convolver<Complex>>(*input, "UPOLS");
+        });
     }
     if (hasEngineEnabled("upola_convolver")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upola_convolver<Complex>>("UPOLA"); });
+        _threadPool.addJob([this, input] {
+            runDenseBenchmark<neo::convolution::upola_convolver<Complex>>(*input, "UPOLA");
+        });
     }
     if (hasEngineEnabled("upola_convolver_v2")) {
-        _threadPool.addJob([this] { runDenseBenchmark<neo::convolution::upola_convolver_v2<Complex>>("UPOLA-V2"); });
+        _threadPool.addJob([this, input] {
+            runDenseBenchmark<neo::convolution::upola_convolver_v2<Complex>>(*input, "UPOLA-V2");
+        });
     }
     if (hasEngineEnabled("split_upola_convolver")) {
-        _threadPool.addJob([this] {
-            runDenseBenchmark<neo::convolution::split_upola_convolver<Complex>>("SPLIT-UPOLA");
+        _threadPool.addJob([this, input] {
+            runDenseBenchmark<neo::convolution::split_upola_convolver<Complex>>(*input, "SPLIT-UPOLA");
         });
     }
     if (hasEngineEnabled("split_upols_convolver")) {
-        _threadPool.addJob([this] {
-            runDenseBenchmark<neo::convolution::split_upols_convolver<Complex>>("SPLIT-UPOLS");
+        _threadPool.addJob([this, input] {
+            runDenseBenchmark<neo::convolution::split_upols_convolver<Complex>>(*input, "SPLIT-UPOLS");
         });
     }
     if (hasEngineEnabled("sparse_upola_convolver")) {
-        _threadPool.addJob([this] { runSparseConvolverBenchmark(); });
+        _threadPool.addJob([this, input] { runSparseConvolverBenchmark(*input); });
     }
     if (hasEngineEnabled("convolver_tests")) {
         _threadPool.addJob([this] { runConvolverTests(); });
     }
     if (hasEngineEnabled("sparse_quality_tests")) {
-        _threadPool.addJob([this] { runSparseQualityTests(); });
+        _threadPool.addJob([this, input] { runSparseQualityTests(*input); });
     }
 }
 
@@ -373,14 +389,14 @@ auto BenchmarkTab::runWeightingTests() -> void
     _fileInfo.insertTextAtCaret(line);
 }
 
-auto BenchmarkTab::runJuceConvolutionBenchmark() -> void
+auto BenchmarkTab::runJuceConvolutionBenchmark(Input const& input) -> void
 {
-    auto proc = ProcessChainConvolver<juce::dsp::Convolution>{_impulseFile};
-    auto out  = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
+    auto proc = ProcessChainConvolver<juce::dsp::Convolution>{input.impulseFile};
+    auto out  = juce::AudioBuffer<float>{input.signal.buffer.getNumChannels(), input.signal.buffer.getNumSamples()};
     auto file = getBenchmarkResultsDirectory().getNonexistentChildFile("jconv", ".wav");
 
     auto const start = std::chrono::system_clock::now();
-    processBlocks(proc, _signal.buffer, out, 4096, _spec.sampleRate);
+    processBlocks(proc, input.signal.buffer, out, 4096, input.spec.sampleRate);
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(out);
@@ -389,17 +405,17 @@ auto BenchmarkTab::runJuceConvolutionBenchmark() -> void
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
     appendInfo("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runNeoConvolutionBenchmark() -> void
+auto BenchmarkTab::runNeoConvolutionBenchmark(Input const& input) -> void
 {
-    auto proc = ProcessChainConvolver<neo::Convolution>{_impulseFile};
-    auto out  = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
+    auto proc = ProcessChainConvolver<neo::Convolution>{input.impulseFile};
+    auto out  = juce::AudioBuffer<float>{input.signal.buffer.getNumChannels(), input.signal.buffer.getNumSamples()};
     auto file = getBenchmarkResultsDirectory().getNonexistentChildFile("jconv", ".wav");
 
     auto const start = std::chrono::system_clock::now();
-    processBlocks(proc, _signal.buffer, out, 4096, _spec.sampleRate);
+    processBlocks(proc, input.signal.buffer, out, 4096, input.spec.sampleRate);
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(out);
@@ -408,26 +424,27 @@ auto BenchmarkTab::runNeoConvolutionBenchmark() -> void
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
     appendInfo("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
 
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
+auto BenchmarkTab::runDenseConvolutionBenchmark(Input const& input) -> void
 {
-    auto out       = juce::AudioBuffer<float>{_signal.buffer.getNumChannels(), _signal.buffer.getNumSamples()};
-    auto inBuffer  = juce::dsp::AudioBlock<float const>{_signal.buffer};
+    auto const& in = input.signal.buffer;
+    auto out       = juce::AudioBuffer<float>{in.getNumChannels(), in.getNumSamples()};
+    auto inBuffer  = juce::dsp::AudioBlock<float const>{in};
     auto outBuffer = juce::dsp::AudioBlock<float>{out};
 
-    auto proc = DenseConvolution{static_cast<int>(_spec.maximumBlockSize)};
-    proc.loadImpulseResponse(_impulseFile.createInputStream());
+    auto proc = DenseConvolution{static_cast<int>(input.spec.maximumBlockSize)};
+    proc.loadImpulseResponse(input.impulseFile.createInputStream());
     proc.prepare(juce::dsp::ProcessSpec{
-        _spec.sampleRate,
-        static_cast<std::uint32_t>(_spec.maximumBlockSize),
+        input.spec.sampleRate,
+        static_cast<std::uint32_t>(input.spec.maximumBlockSize),
         static_cast<std::uint32_t>(inBuffer.getNumChannels()),
     });
 
     auto start = std::chrono::system_clock::now();
-    for (size_t i{0}; i < outBuffer.getNumSamples(); i += size_t(_spec.maximumBlockSize)) {
-        auto const numSamples = std::min(outBuffer.getNumSamples() - i, size_t(_spec.maximumBlockSize));
+    for (size_t i{0}; i < outBuffer.getNumSamples(); i += size_t(input.spec.maximumBlockSize)) {
+        auto const numSamples = std::min(outBuffer.getNumSamples() - i, size_t(input.spec.maximumBlockSize));
 
         auto inBlock  = inBuffer.getSubBlock(i, numSamples);
         auto outBlock = outBuffer.getSubBlock(i, numSamples);
@@ -444,17 +461,19 @@ auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
     auto file   = getBenchmarkResultsDirectory().getNonexistentChildFile("tconv2", ".wav");
     auto output = to_mdarray(out);
     neo::normalize_peak(output.to_mdspan());
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
-auto BenchmarkTab::runSparseConvolverBenchmark() -> void
+auto BenchmarkTab::runSparseConvolverBenchmark(Input const& input) -> void
 {
-    auto const thresholdDB   = -static_cast<float>(_dynamicRange.getValue());
-    auto const numBinsToKeep = static_cast<int>(_binsToKeep.getValue());
+    auto const& signal       = input.signal;
+    auto const& impulse      = input.impulse;
+    auto const thresholdDB   = -input.dynamicRange;
+    auto const numBinsToKeep = input.binsToKeep;
 
     auto const start = std::chrono::system_clock::now();
     auto const result
-        = neo::sparse_convolve(_signal.buffer, _impulse.buffer, 4096, _impulse.sampleRate, thresholdDB, numBinsToKeep);
+        = neo::sparse_convolve(signal.buffer, impulse.buffer, 4096, impulse.sampleRate, thresholdDB, numBinsToKeep);
     auto const end = std::chrono::system_clock::now();
 
     auto output = to_mdarray(result);
@@ -467,14 +486,14 @@ auto BenchmarkTab::runSparseConvolverBenchmark() -> void
 
     auto const filename = "tconv_sparse_" + thresholdText;
     auto const file     = getBenchmarkResultsDirectory().getNonexistentChildFile(filename, ".wav");
-    writeToWavFile(file, output, _spec.sampleRate, 32);
+    writeToWavFile(file, output, input.spec.sampleRate, 32);
 }
 
 auto BenchmarkTab::runConvolverTests() -> void {}
 
-auto BenchmarkTab::runSparseQualityTests() -> void
+auto BenchmarkTab::runSparseQualityTests(Input const& input) -> void
 {
-    auto const stftSize    = static_cast<std::size_t>(static_cast<int>(_stftWindowSize.getValue()));
+    auto const stftSize    = static_cast<std::size_t>(input.stftWindowSize);
     auto const stftOptions = neo::fft::stft_options<double>{
         .frame_size     = stftSize,
         .transform_size = stftSize * 2,
@@ -482,10 +501,10 @@ auto BenchmarkTab::runSparseQualityTests() -> void
     };
     auto stftPlan = neo::fft::stft_plan<double>{stftOptions};
 
-    auto const dense = [this] {
+    auto const dense = [&input] {
         auto result = to_mdarray(neo::dense_convolve<neo::convolution::upols_convolver<std::complex<float>>>(
-            _signal.buffer,
-            _impulse.buffer,
+            input.signal.buffer,
+            input.impulse.buffer,
             4096
         ));
         neo::normalize_peak(result.to_mdspan());
@@ -494,14 +513,14 @@ auto BenchmarkTab::runSparseQualityTests() -> void
 
     auto const denseSpectogram = stftPlan(dense.to_mdspan());
 
-    auto const numBinsToKeep = static_cast<int>(_binsToKeep.getValue());
+    auto const numBinsToKeep = input.binsToKeep;
 
-    auto calculateErrorsForDynamicRange = [=, this](auto dynamicRange) {
+    auto calculateErrorsForDynamicRange = [&, numBinsToKeep](auto dynamicRange) {
         auto sparse = to_mdarray(neo::sparse_convolve(
-            _signal.buffer,
-            _impulse.buffer,
+            input.signal.buffer,
+            input.impulse.buffer,
             4096,
-            _impulse.sampleRate,
+            input.impulse.sampleRate,
             -dynamicRange,
             numBinsToKeep
         ));
diff --git a/extra/plugin/src/ui/BenchmarkTab.hpp b/extra/plugin/src/ui/BenchmarkTab.hpp
index 98c7d80..0bf08b5 100644
--- a/extra/plugin/src/ui/BenchmarkTab.hpp
+++ b/extra/plugin/src/ui/BenchmarkTab.hpp
@@ -35,20 +35,32 @@ private:
     auto selectSignalFile() -> void;
     auto loadSignalFile(juce::File const& file) -> void;
 
+    /// Everything a job reads, the members can change while it is running
+    struct Input
+    {
+        juce::dsp::ProcessSpec spec;
+        juce::File impulseFile;
+        BufferWithSampleRate<float> signal;
+        BufferWithSampleRate<float> impulse;
+        float dynamicRange;
+        int binsToKeep;
+        int stftWindowSize;
+    };
+
     auto runBenchmarks() -> void;
     auto runWeightingTests() -> void;
-    auto runJuceConvolutionBenchmark() -> void;
-    auto runNeoConvolutionBenchmark() -> void;
-    auto runDenseConvolutionBenchmark() -> void;
-    auto runSparseConvolverBenchmark() -> void;
+    auto runJuceConvolutionBenchmark(Input const& input) -> void;
+    auto runNeoConvolutionBenchmark(Input const& input) -> void;
+    auto runDenseConvolutionBenchmark(Input const& input) -> void;
+    auto runSparseConvolverBenchmark(Input const& input) -> void;
     auto runConvolverTests() -> void;
-    auto runSparseQualityTests() -> void;
+    auto runSparseQualityTests(Input const& input) -> void;
 
     template<typename Convolver>
-    auto runDenseBenchmark(juce::String const& name) -> void
+    auto runDenseBenchmark(Input const& input, juce::String const& name) -> void
     {
         auto start     = std::chrono::system_clock::now();
-        auto result    = neo::dense_convolve<Convolver>(_signal.buffer, _impulse.buffer, 4096);
+        auto result    = neo::dense_convolve<Convolver>(input.signal.buffer, input.impulse.buffer, 4096);
         auto const end = std::chrono::system_clock::now();
 
         auto output = to_mdarray(result);
@@ -59,7 +71,7 @@ private:
         appendInfo(name + ": " + juce::String{elapsed.count()} + "\n");
 
         auto file = getBenchmarkResultsDirectory().getNonexistentChildFile(name, ".wav");
-        writeToWavFile(file, output, _spec.sampleRate, 32);
+        writeToWavFile(file, output, input.spec.sampleRate, 32);
     }
 
     auto updateImages() -> void;
-- 
2.43.0


From a3c11b9cdb38841066740779a60ffb19787033a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 48/48] fix: convert arrays of other dtypes to double precision
 in the python module

pybind11 hands an array whose dtype matches no overload to the first one, so
float64 arrays passed to fft(), and integers or mixed float32/float64 operands
passed to convolve(), came back in single precision.
---
 extra/python/src/main.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 8aa4f42..7d4326b 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -267,26 +267,27 @@ PYBIND11_MODULE(_neo, m)
 
     m.def("rfftfreq", &rfftfreq);
 
-    m.def("fft", &fft<std::complex<float>, neo::fft::direction::forward>);
+    // the first overload is the one that converts, arrays of any other dtype must not lose precision
     m.def("fft", &fft<std::complex<double>, neo::fft::direction::forward>);
+    m.def("fft", &fft<std::complex<float>, neo::fft::direction::forward>);
 
-    m.def("ifft", &fft<std::complex<float>, neo::fft::direction::backward>);
     m.def("ifft", &fft<std::complex<double>, neo::fft::direction::backward>);
+    m.def("ifft", &fft<std::complex<float>, neo::fft::direction::backward>);
 
-    m.def("direct_convolve", &convolve<neo::convolution::method::direct, float>);
     m.def("direct_convolve", &convolve<neo::convolution::method::direct, double>);
+    m.def("direct_convolve", &convolve<neo::convolution::method::direct, float>);
 
-    m.def("fft_convolve", &convolve<neo::convolution::method::fft, float>);
     m.def("fft_convolve", &convolve<neo::convolution::method::fft, double>);
+    m.def("fft_convolve", &convolve<neo::convolution::method::fft, float>);
 
-    m.def("amplitude_to_db", py::vectorize(amplitude_to_db<float>));
     m.def("amplitude_to_db", py::vectorize(amplitude_to_db<double>));
+    m.def("amplitude_to_db", py::vectorize(amplitude_to_db<float>));
 
-    m.def("amplitude_to_db_estimate", py::vectorize(amplitude_to_db_estimate<float>));
     m.def("amplitude_to_db_estimate", py::vectorize(amplitude_to_db_estimate<double>));
+    m.def("amplitude_to_db_estimate", py::vectorize(amplitude_to_db_estimate<float>));
 
-    m.def("a_weighting", py::vectorize(neo::a_weighting<float>));
     m.def("a_weighting", py::vectorize(neo::a_weighting<double>));
+    m.def("a_weighting", py::vectorize(neo::a_weighting<float>));
 
     m.def("fast_log2", py::vectorize(neo::fast_log2));
     m.def("fast_log10", py::vectorize(neo::fast_log10));
-- 
2.43.0

