S = "src/neo/"
CONV = ["neo/convolution.hpp"]
FFT = ["neo/fft.hpp"]
ALG = ["neo/algorithm.hpp"]
SEEDS = [
dict(id="c06-byte-segment-counter", prop="C06",
  edits=[(S+"convolution/uniform_partitioned_convolver.hpp", "    fdl_index<size_t> _indexer;", "    fdl_index<std::uint8_t> _indexer;"),
         (S+"convolution/uniform_partitioned_convolver.hpp", "    _indexer     = fdl_index<size_t>{filter.extent(0)};", "    _indexer     = fdl_index<std::uint8_t>{static_cast<std::uint8_t>(filter.extent(0))};")],
  needs="a filter with more than 255 partitions: the segment counter wraps and only the first few partitions are used",
  breaks="convolution with long filters loses its tail",
  inc=CONV+["cstdint"],
  demo='''
    auto const B = std::size_t(4), P = std::size_t(300);
    auto const h = rnd(B * P, 3); auto const x = rnd(B * (P + 10), 4);
    std::vector<float> hf(h.begin(), h.end());
    auto cv = neo::convolution::upola_convolver<std::complex<float>>{};
    auto F = neo::convolution::uniform_partition(sp2(hf, 1, hf.size()), B);
    cv.filter(kx::submdspan(F.to_mdspan(), 0, kx::full_extent, kx::full_extent));
    auto const ref = conv(x, h);
    for (std::size_t b = 0; b < x.size() / B; ++b) {
        std::vector<float> blk(x.begin() + long(b * B), x.begin() + long(b * B + B));
        cv(sp(blk));
        for (std::size_t i = 0; i < B; ++i) { CK(std::abs(blk[i] - ref[b * B + i]) < 1e-3, "block %zu sample %zu", b, i); }
    }
'''),
dict(id="c07-accumulate-first-chunk-only", prop="C07",
  edits=[(S+"convolution/overlap_add_convolver.hpp", "auto const input_was_empty = (_input_pos == 0);", "auto const input_was_empty = (num_processed == 0);")],
  needs="a call that spans a block boundary, so that a new block starts in the middle of the call",
  breaks="history of older partitions is not recomputed for blocks that start inside a call",
  inc=CONV,
  demo='''
    auto const B = std::size_t(4), P = std::size_t(5);
    auto const h = rnd(B * P, 3); auto const x = rnd(96, 4);
    std::vector<float> hf(h.begin(), h.end());
    auto cv = neo::convolution::upola_convolver_v2<std::complex<float>>{};
    auto F = neo::convolution::uniform_partition(sp2(hf, 1, hf.size()), B);
    cv.filter(kx::submdspan(F.to_mdspan(), 0, kx::full_extent, kx::full_extent));
    auto const ref = conv(x, h);
    std::vector<float> y(x.begin(), x.end());
    for (std::size_t pos = 0; pos < y.size(); pos += 12) {
        std::vector<float> blk(y.begin() + long(pos), y.begin() + long(pos + 12));
        cv(sp(blk));
        for (std::size_t i = 0; i < 12; ++i) { CK(std::abs(blk[i] - ref[pos + i]) < 1e-4, "sample %zu", pos + i); }
    }
'''),
dict(id="c08-keep-delay-line", prop="C08",
  edits=[(S+"convolution/uniform_partitioned_convolver.hpp", "    _fdl         = Fdl{filter.extents()};\n", "    if (_num_segments != filter.extent(0) or _num_bins != filter.extent(1)) {\n        _num_segments = filter.extent(0);\n        _num_bins     = filter.extent(1);\n        _fdl          = Fdl{filter.extents()};\n    }\n"),
         (S+"convolution/uniform_partitioned_convolver.hpp", "    Overlap _overlap{1, 1};\n", "    size_t _num_segments{0};\n    size_t _num_bins{0};\n    Overlap _overlap{1, 1};\n")],
  needs="installing a second filter of the same shape after audio was processed",
  breaks="audio from before the filter change leaks through the new filter",
  inc=CONV,
  demo='''
    auto const B = std::size_t(8), P = std::size_t(3);
    auto const h = rnd(B * P, 3);
    std::vector<float> hf(h.begin(), h.end());
    auto F = neo::convolution::uniform_partition(sp2(hf, 1, hf.size()), B);
    auto m = kx::submdspan(F.to_mdspan(), 0, kx::full_extent, kx::full_extent);
    auto cv = neo::convolution::upols_convolver<std::complex<float>>{};
    cv.filter(m);
    for (int i = 0; i < 4; ++i) { std::vector<float> blk(B, 1.0F); cv(sp(blk)); }
    cv.filter(m);
    for (int i = 0; i < 5; ++i) {
        std::vector<float> z(B, 0.0F);
        cv(sp(z));
        for (auto v : z) { CK(std::abs(v) < 1e-6F, "silence in, %g out", double(v)); }
    }
'''),
dict(id="c09-prune-small-coefficients", prop="C09",
  edits=[(S+"container/csr_matrix.hpp", "            if (filter(row_idx, col, row(col))) {\n                ++count;", "            if (auto const& val = row(col); filter(row_idx, col, val) and val * val != T{}) {\n                ++count;"),
         (S+"container/csr_matrix.hpp", "if (auto const& val = row(col); filter(row_idx, col, val)) {", "if (auto const& val = row(col); filter(row_idx, col, val) and val * val != T{}) {")],
  needs="a selected coefficient so small that its square underflows",
  breaks="selected but tiny filter coefficients are dropped, so very quiet filters become silent",
  inc=CONV,
  demo='''
    std::vector<float> d{1e-25F, 2.0F, 0.0F, -1e-30F};
    auto m = neo::csr_matrix<float>{sp2(d, 2, 2), [](auto, auto, auto) { return true; }};
    for (std::size_t i = 0; i < 4; ++i) { CK(m(i / 2, i % 2) == d[i], "element %zu is %g", i, double(m(i / 2, i % 2))); }
'''),
dict(id="c11-index-sum-narrow", prop="C11",
  edits=[(S+"convolution/fdl_index.hpp", "static_cast<IndexType>((_write_pos + _num_segments - segment) % _num_segments)", "static_cast<IndexType>(static_cast<IndexType>(_write_pos + _num_segments - segment) % _num_segments)")],
  needs="an index type narrower than int and more than half as many segments as it can count",
  breaks="the sum overflows the index type and filter segments are paired with the wrong blocks",
  inc=["neo/convolution/fdl_index.hpp"],
  demo='''
    auto idx = neo::convolution::fdl_index<std::uint8_t>{200};
    for (int t = 0; t < 450; ++t) {
        int w = -1;
        idx([&](auto i) { w = int(i); }, [&](auto s, auto f) { CK((int(s) + int(f)) % 200 == w, "step %d segment %d filter %d", t, int(s), int(f)); });
    }
'''),
dict(id="c12-fft-size-of-longer", prop="C12",
  edits=[(S+"convolution/fft_convolver.hpp", "fft::next_order(output_size())", "fft::next_order(std::max(output_size() - 1, std::size_t(1)))")],
  needs="operand sizes whose output is one more than a power of two: the last result wraps around onto the first",
  breaks="one-shot FFT convolution aliases its last sample",
  inc=CONV,
  demo='''
    for (std::size_t n = 1; n < 20; ++n) { for (std::size_t m = 1; m < 20; ++m) {
        auto a = rnd(n, 1); auto b = rnd(m, 2);
        auto y = neo::convolution::fft_convolve(sp(a), sp(b));
        auto const ref = conv(a, b);
        CK(y.extent(0) == n + m - 1, "size");
        for (std::size_t i = 0; i < n + m - 1; ++i) { CK(std::abs(y(i) - ref[i]) < 1e-9, "%zux%zu sample %zu", n, m, i); }
    } }
'''),
dict(id="c13-float-frame-count", prop="C13",
  edits=[(S+"fft/stft.hpp", "    return idiv(signal_size - frame_size + overlap_size, frame_size - overlap_size) + 1;", "    auto const hop = static_cast<float>(frame_size - overlap_size);\n    auto const len = static_cast<float>(signal_size) - static_cast<float>(frame_size) + static_cast<float>(overlap_size);\n    return len <= 0.0F ? std::size_t(1) : static_cast<std::size_t>(len / hop + 0.999F) + 1;")],
  needs="a hop of more than a thousand samples with a remainder of one sample",
  breaks="the last frame of the short-time transform is missing, so the end of the signal is lost",
  inc=FFT,
  demo='''
    auto const N = std::size_t(2048);
    std::vector<double> x(2 * N + 1, 0.0);
    x.back() = 1.0;
    neo::fft::stft_options<double> o{};
    o.frame_size = N; o.transform_size = N; o.overlap_size = 0; o.window = neo::rectangular_window<double>{};
    auto r = neo::fft::stft(sp2(x, 1, x.size()), o);
    double e = 0;
    for (std::size_t f = 0; f < r.extent(1); ++f) { for (std::size_t k = 0; k < r.extent(2); ++k) { e += std::norm(r(0, f, k)); } }
    CK(e > 0.5, "the last sample is in no frame (%zu frames)", std::size_t(r.extent(1)));
'''),
dict(id="c14-lookup-next-row", prop="C14",
  edits=[(S+"container/csr_matrix.hpp", "    for (auto i = _row_indices[row]; i < _row_indices[row + 1]; i++) {\n        if (_colum_indices[i] == col) {\n            return _values[i];\n        }\n    }\n    return T{};",
          "    auto const first = std::next(_colum_indices.begin(), static_cast<std::ptrdiff_t>(_row_indices[row]));\n    auto const last  = std::next(_colum_indices.begin(), static_cast<std::ptrdiff_t>(_row_indices[row + 1]));\n    auto const pos   = std::lower_bound(first, last, col);\n    if (pos != _colum_indices.end() && *pos == col) {\n        return _values[static_cast<size_type>(std::distance(_colum_indices.begin(), pos))];\n    }\n    return T{};"),
         (S+"container/csr_matrix.hpp", "#include <cstddef>\n", "#include <algorithm>\n#include <cstddef>\n")],
  needs="a column missing at the end of a row that is the first stored column of the next row",
  breaks="an element that is not stored reads as the element of the following row",
  inc=["neo/container/csr_matrix.hpp"],
  demo='''
    auto m = neo::csr_matrix<double>{3, 4};
    m.insert(0, 1, 1.0); m.insert(1, 3, 5.0); m.insert(2, 0, 2.0);
    CK(m(0, 3) == 0.0, "empty element (0,3) reads %g", m(0, 3));
    CK(m(1, 3) == 5.0 && m(0, 1) == 1.0 && m(2, 0) == 2.0 && m(2, 3) == 0.0, "stored elements");
'''),
dict(id="c15-copy-flat-layouts", prop="C15",
  edits=[(S+"algorithm/copy.hpp", "    if constexpr (InObj::rank() == 1) {\n        for (auto i{0ULL}; i < in_obj.extent(0); ++i) {\n            out_obj[i] = in_obj[i];\n        }\n    } else {\n",
          "    if constexpr (InObj::rank() == 1) {\n        for (auto i{0ULL}; i < in_obj.extent(0); ++i) {\n            out_obj[i] = in_obj[i];\n        }\n    } else {\n        if constexpr (requires { in_obj.data_handle()[0]; out_obj.data_handle()[0] = in_obj.data_handle()[0]; }) {\n            if (in_obj.is_exhaustive() and out_obj.is_exhaustive() and std::is_same_v<typename InObj::accessor_type, stdex::default_accessor<typename InObj::element_type>>) {\n                for (auto i{0ULL}; i < in_obj.size(); ++i) {\n                    out_obj.data_handle()[i] = in_obj.data_handle()[i];\n                }\n                return;\n            }\n        }\n")],
  needs="copying between a row-major and a column-major matrix, both without gaps",
  breaks="the flat fast path ignores the layouts and transposes the elements",
  inc=ALG,
  demo='''
    std::vector<double> a{1, 2, 3, 4, 5, 6}, b(6);
    auto l = kx::mdspan<double, E2, kx::layout_left>{a.data(), 2, 3};
    auto r = sp2(b, 2, 3);
    neo::copy(l, r);
    for (std::size_t i = 0; i < 2; ++i) { for (std::size_t j = 0; j < 3; ++j) { CK(r(i, j) == l(i, j), "(%zu,%zu)", i, j); } }
'''),
dict(id="c16-impulse-mean-energy", prop="C16",
  edits=[(S+"convolution/normalize_impulse.hpp", "        auto energy = value_type_t<InOutObj>(0);\n", "        auto energy = neo::detail::energy(stdex::submdspan(obj, Index{0}, stdex::full_extent));\n        if (energy > value_type_t<InOutObj>(0) and obj.extent(0) > 2) {\n            scale(neo::detail::energy_to_factor(energy), obj);\n            return;\n        }\n")],
  needs="three or more channels whose first one is neither silent nor the strongest",
  breaks="the impulse is normalised by its first channel instead of its strongest",
  inc=CONV,
  demo='''
    std::vector<double> x{0.5, 0, 0, 2.0, 0, 0, 0.1, 0, 0};
    neo::convolution::normalize_impulse(sp2(x, 3, 3));
    CK(std::abs(x[3] - 1.0) < 1e-9, "strongest channel has amplitude %g", x[3]);
'''),
dict(id="c17-multiply-wraps", prop="C17",
  edits=[(S+"fixed_point/fixed_point.hpp", "detail::saturate<IntType>((lhs.value() * rhs.value()) >> fractional_bits),", "static_cast<IntType>((lhs.value() * rhs.value()) >> fractional_bits),")],
  needs="-1 times -1 (or a format with integer bits and a large product)",
  breaks="the one product that does not fit wraps around instead of saturating",
  inc=["neo/fixed_point.hpp"],
  demo='''
    auto const m = neo::q15{neo::underlying_value, std::int16_t(-32768)};
    CK((m * m).value() == 32767, "-1 * -1 is %d", int((m * m).value()));
'''),
dict(id="c17-convert-double-wide", prop="C17",
  edits=[(S+"fixed_point/fixed_point.hpp", "        : _value{detail::saturate<storage_type>(static_cast<float>(val) * scale)}", "        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<std::int64_t>(static_cast<float>(val) * scale)))}")],
  needs="a value so large that its scaled integer does not fit in 32 bits (beyond 65536 for q15)",
  breaks="conversion of very large values wraps in 32 bits and can come out as the opposite extreme",
  inc=["neo/fixed_point.hpp"],
  demo='''
    volatile float big = 1.0e6F;
    CK(neo::q15{float(big)}.value() == 32767, "1e6 becomes %d", int(neo::q15{float(big)}.value()));
    volatile double small = -1.0e9;
    CK(neo::q7{double(small)}.value() == -128, "-1e9 becomes %d", int(neo::q7{double(small)}.value()));
'''),
dict(id="c18-q7-logical-high", prop="C18",
  edits=[(S+"fixed_point/simd.hpp", "    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);", "    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);")],
  needs="a vectorised q7 product that is negative in one of the upper eight lanes",
  breaks="negative products in the upper half saturate to +1",
  inc=["neo/fixed_point.hpp"], flags="-march=x86-64-v3 -O2",
  demo='''
    std::vector<neo::q7> a(32, neo::q7{-0.5F}), b(32, neo::q7{0.5F}), o(32);
    neo::multiply(std::span<neo::q7 const>{a}, std::span<neo::q7 const>{b}, std::span<neo::q7>{o});
    for (std::size_t i = 0; i < 32; ++i) { CK(std::abs(int(o[i].value()) + 32) <= 1, "lane %zu is %d", i, int(o[i].value())); }
'''),
dict(id="c18-kernel-int-index", prop="C18",
  edits=[(S+"simd/sse2.hpp", "    for (auto i{remainder}; i < std::ssize(lhs); i += vector_size) {", "    for (auto i{static_cast<std::int16_t>(remainder)}; i < std::ssize(lhs) and i >= 0; i += vector_size) {")],
  needs="more than 32767 elements: the index wraps and the rest of the output is not written",
  breaks="long fixed-point vectors are only processed up to element 32767",
  inc=["neo/fixed_point.hpp"], flags="-march=x86-64-v3 -O2",
  demo='''
    std::size_t const n = 40000;
    std::vector<neo::q15> a(n, neo::q15{0.25F}), b(n, neo::q15{0.5F}), o(n);
    neo::add(std::span<neo::q15 const>{a}, std::span<neo::q15 const>{b}, std::span<neo::q15>{o});
    for (std::size_t i = 0; i < n; ++i) { CK(o[i].value() == 24576, "element %zu is %d", i, int(o[i].value())); }
'''),
dict(id="c20-log2-float", prop="C20",
  edits=[(S+"bit/bit_log2.hpp", "    auto result = UInt{0};\n    for (; x > UInt(1); x >>= UInt(1)) {\n        ++result;\n    }\n    return result;",
          "    auto result = UInt{0};\n    auto rest   = static_cast<float>(x);\n    for (; rest >= 2.0F; rest *= 0.5F) {\n        ++result;\n    }\n    return result;")],
  needs="a value just below a power of two that needs more than 24 bits",
  breaks="the logarithm is one too large because the value was rounded up",
  inc=["neo/bit.hpp"],
  demo='''
    CK(neo::bit_log2(std::uint32_t(0x01FFFFFF)) == 24U, "log2(2^25-1) = %u", neo::bit_log2(std::uint32_t(0x01FFFFFF)));
    CK(neo::bit_log2(std::uint64_t(1) << 63) == 63U, "log2(2^63)");
'''),
dict(id="c20-ipow-int-accumulator", prop="C20",
  edits=[(S+"math/ipow.hpp", "    T result = 1;\n    for (T i = 0; i < exponent; i++) {\n        result *= base;\n    }\n    return result;", "    auto result = 1U;\n    for (T i = 0; i < exponent; i++) {\n        result *= static_cast<unsigned>(base);\n    }\n    return static_cast<T>(static_cast<int>(result));")],
  needs="a 64-bit power above 2^31",
  breaks="large 64-bit powers are cut off to 32 bits",
  inc=["neo/math.hpp"],
  demo='''
    long w = 1;
    for (long e = 0; e < 39; ++e, w *= 3) { CK(neo::ipow(3L, e) == w, "3^%ld = %ld", e, neo::ipow(3L, e)); }
    CK(neo::ipow(-7, 3) == -343, "-7^3");
'''),
dict(id="c21-in-place-multiply", prop="C21",
  edits=[(S+"complex/scalar_complex.hpp", "        lhs = lhs * rhs;\n        return lhs;", "        auto const re = lhs.real();\n        lhs._data[0]  = re * rhs.real() - lhs.imag() * rhs.imag();\n        lhs._data[1]  = re * rhs.imag() + lhs.imag() * rhs.real();\n        return lhs;")],
  needs="squaring a number in place (z *= z): the right operand is the object being changed",
  breaks="the imaginary part of z *= z uses the already changed real part",
  inc=["neo/complex.hpp"],
  demo='''
    auto z = neo::complex128{1.5, 2.0};
    auto const w = z * z;
    z *= z;
    CK(z.real() == w.real() && z.imag() == w.imag(), "(%g,%g) expected (%g,%g)", z.real(), z.imag(), w.real(), w.imag());
'''),
dict(id="c22-full-scale-overflow", prop="C22",
  edits=[(S+"convolution/compressed_fdl.hpp", "            auto const clamped     = std::clamp(val, decltype(val)(-1), decltype(val)(1));\n            return static_cast<int_type>(std::lround(clamped * static_cast<float>(max_val)));",
          "            auto const scaled      = std::lround(val * static_cast<float>(max_val));\n            return static_cast<int_type>(std::clamp(scaled, -static_cast<long>(max_val) - 1L, static_cast<long>(max_val) + 1L));")],
  needs="an input of more than full scale (above 1)",
  breaks="clipped values wrap around to the negative extreme",
  inc=CONV,
  demo='''
    auto f = neo::convolution::compressed_fdl<std::complex<float>, neo::scalar_complex<std::int8_t>>{E2{1, 3}};
    std::vector<std::complex<float>> x{{0.5F, 1.0F}, {2.0F, -2.0F}, {1.01F, 0.0F}};
    f.insert(sp(x), 0);
    auto r = f[0];
    for (std::size_t i = 0; i < 3; ++i) { CK(std::abs(r[i].real() - std::clamp(x[i].real(), -1.0F, 1.0F)) < 0.02F, "element %zu is %g", i, double(r[i].real())); }
'''),
dict(id="c23-window-index-narrow", prop="C23",
  edits=[(S+"math/windowing.hpp", "    for (auto i = std::size_t(0); i < size; ++i) {\n        vec(i) = window(i, size);", "    for (auto i = std::size_t(0); i < size; ++i) {\n        vec(i) = window(static_cast<std::uint16_t>(i), size);")],
  needs="a window longer than 65536 samples",
  breaks="long windows start over after 65536 samples",
  inc=["neo/math/windowing.hpp"],
  demo='''
    std::size_t const n = 70000;
    auto w = neo::generate_window<double>(n);
    for (std::size_t i = 0; i < n; ++i) { CK(std::abs(w(i) - 0.5 * (1.0 - std::cos(2.0 * std::numbers::pi * double(i) / double(n - 1)))) < 1e-9, "sample %zu", i); }
'''),
dict(id="c25-componentwise-close", prop="C25",
  edits=[(S+"algorithm/allclose.hpp", "        return math::abs(left - right) <= tolerance;", "        auto const diff = left - right;\n        if constexpr (std::floating_point<std::remove_cvref_t<decltype(diff)>>) {\n            return math::abs(diff) <= tolerance;\n        } else {\n            return math::abs(diff.real()) <= tolerance and math::abs(diff.imag()) <= tolerance;\n        }")],
  needs="complex values whose components each differ by less than the tolerance while their distance exceeds it",
  breaks="complex values further apart than the tolerance are reported as close",
  inc=ALG,
  demo='''
    std::vector<std::complex<double>> a{{1.0, 2.0}}, b{{1.09, 2.09}};
    CK(!neo::allclose(sp(a), sp(b), 0.1), "distance 0.127 accepted at tolerance 0.1");
    CK(neo::allclose(sp(a), sp(b), 0.13), "distance 0.127 rejected at tolerance 0.13");
'''),
dict(id="c25-square-only", prop="C25",
  edits=[(S+"algorithm/allmatch.hpp", "            for (auto j{0}; std::cmp_less(j, lhs.extent(1)); ++j) {", "            for (auto j{0}; std::cmp_less(j, std::min<std::size_t>(lhs.extent(1), 256)); ++j) {"),
         (S+"algorithm/allmatch.hpp", "#include <cassert>", "#include <algorithm>\n#include <cassert>")],
  needs="a matrix with more than 256 columns that differs only behind column 256",
  breaks="differences in far columns are not seen",
  inc=ALG,
  demo='''
    std::vector<double> a(2 * 300, 1.0), b(2 * 300, 1.0);
    b[599] = 2.0;
    CK(!neo::allclose(sp2(a, 2, 300), sp2(b, 2, 300)), "last element not compared");
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
