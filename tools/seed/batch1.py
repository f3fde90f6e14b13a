S = "src/neo/"
CONV = ["neo/convolution.hpp"]
FFT = ["neo/fft.hpp"]
SEEDS = [
dict(id="c01-bitrev-table-narrow", prop="C01",
  edits=[(S+"fft/reference/bitrevorder.hpp", "static auto make(std::size_t size) -> std::vector<std::uint32_t>", "static auto make(std::size_t size) -> std::vector<std::uint16_t>"),
         (S+"fft/reference/bitrevorder.hpp", "auto table       = std::vector<std::uint32_t>(size, 0);", "auto table       = std::vector<std::uint16_t>(size, 0);"),
         (S+"fft/reference/bitrevorder.hpp", "    std::vector<std::uint32_t> _table;", "    std::vector<std::uint16_t> _table;")],
  needs="a transform of 2^17 or more points: the 16-bit table entries lose the top bit of the permutation",
  breaks="large power-of-two FFTs are computed on wrongly permuted input",
  inc=FFT, flags="-march=x86-64 -O2",
  demo='''
    auto const order = std::size_t(17);
    auto plan = neo::fft::fft_plan<std::complex<double>>{neo::fft::from_order, order};
    auto const n = plan.size();
    std::vector<std::complex<double>> x(n);
    x[3] = 1.0;
    neo::fft::fft(plan, sp(x));
    for (std::size_t k = 0; k < n; ++k) { CK(std::abs(x[k] - tone(n, 3, k, -1)) < 1e-9, "bin %zu", k); }
'''),
dict(id="c02-stockham8-narrow-stride", prop="C02",
  edits=[(S+"fft/reference/c2c_stockham_dif8_plan.hpp", "        auto m = 1U;\n", "        auto m = std::uint8_t{1};\n")],
  needs="four or more radix-8 stages (4096 points): the stride 512 does not fit in eight bits",
  breaks="radix-8 Stockham transforms of 8^4 points and more are wrong",
  inc=FFT,
  demo='''
    for (std::size_t order = 1; order <= 4; ++order) {
        auto plan = neo::fft::c2c_stockham_dif8_plan<std::complex<double>>{neo::fft::from_order, order};
        auto const n = plan.size();
        std::vector<std::complex<double>> x(n);
        x[n - 1] = 1.0;
        plan(sp(x), neo::fft::direction::forward);
        for (std::size_t k = 0; k < n; ++k) { CK(std::abs(x[k] - tone(n, n - 1, k, -1)) < 1e-9, "order %zu bin %zu", order, k); }
    }
'''),
dict(id="c03-deinterleave-nyquist", prop="C03",
  edits=[(S+"fft/rfft.hpp", "for (auto k{1}; k < n / 2 + 1; ++k) {", "for (auto k{1}; k < (n + 1) / 2; ++k) {")],
  needs="an even transform size and a signal with energy in the Nyquist bin",
  breaks="the Nyquist bin of both separated real spectra is never written",
  inc=FFT,
  demo='''
    auto const n = std::size_t(8);
    auto const a = rnd(n, 1); auto const b = rnd(n, 2);
    std::vector<std::complex<double>> z(n), X(n / 2 + 1, {7, 7}), Y(n / 2 + 1, {7, 7}), ca(n), cb(n);
    for (std::size_t i = 0; i < n; ++i) { z[i] = {a[i], b[i]}; ca[i] = a[i]; cb[i] = b[i]; }
    auto Z = dft(z, -1); auto const A = dft(ca, -1); auto const B = dft(cb, -1);
    neo::fft::rfft_deinterleave(sp(Z), sp(X), sp(Y));
    for (std::size_t k = 0; k <= n / 2; ++k) { CK(std::abs(X[k] - A[k]) < 1e-9 && std::abs(Y[k] - B[k]) < 1e-9, "bin %zu", k); }
'''),
dict(id="c03-irfft-oversized-input", prop="C03",
  edits=[(S+"fft/fallback/fallback_rfft_plan.hpp", "        for (auto i{coeffs}; i < size(); ++i) {", "        for (auto i{std::max<size_type>(coeffs, in.extent(0))}; i < size(); ++i) {")],
  needs="an inverse real transform whose input view is longer than N/2+1 and holds something in the upper half",
  breaks="the inverse real FFT uses stale upper-half coefficients instead of the conjugate mirror image",
  inc=FFT,
  demo='''
    auto const n = std::size_t(16);
    auto plan = neo::fft::rfft_plan<double>{neo::fft::from_order, 4};
    auto x = rnd(n);
    std::vector<std::complex<double>> s(n, {3.0, 1.0});
    neo::fft::rfft(plan, sp(x), sp(s));
    std::vector<double> y(n);
    neo::fft::irfft(plan, sp(s), sp(y));
    for (std::size_t i = 0; i < n; ++i) { CK(std::abs(y[i] - x[i] * n) < 1e-9, "sample %zu %g %g", i, y[i], x[i] * n); }
'''),
dict(id="c04-chirp-index-32bit", prop="C04",
  edits=[(S+"fft/fallback/fallback_dft_plan.hpp", "        for (std::size_t i{0}; i < size; ++i) {\n            auto const j = static_cast<Float>((i * i) % (size * 2));",
          "        for (auto i{0U}; i < size; ++i) {\n            auto const j = static_cast<Float>((i * i) % (size * 2));")],
  needs="a DFT longer than 65536 points: the square of the index overflows 32 bits",
  breaks="the chirp of the Bluestein DFT is wrong for long transforms",
  inc=FFT, flags="-march=x86-64 -O2",
  demo='''
    auto const n = std::size_t(65600);
    auto plan = neo::fft::dft_plan<std::complex<double>>{n};
    std::vector<std::complex<double>> x(n);
    x[n - 1] = 1.0;
    plan(sp(x), neo::fft::direction::forward);
    for (std::size_t k = 0; k < n; ++k) { CK(std::abs(x[k] - tone(n, n - 1, k, -1)) < 1e-6, "bin %zu", k); }
'''),
dict(id="c05-dft-stale-padding", prop="C05",
  edits=[(S+"fft/fallback/fallback_dft_plan.hpp", "        fill(a, Float(0));\n", "")],
  needs="a second transform with the same plan: the first one starts from a zeroed work buffer",
  breaks="the arbitrary-length DFT depends on what the plan transformed before",
  inc=FFT,
  demo='''
    auto const n = std::size_t(5);
    auto used = neo::fft::dft_plan<std::complex<double>>{n};
    for (int rep = 0; rep < 3; ++rep) {
        auto const r = rnd(2 * n, static_cast<unsigned>(rep + 1));
        std::vector<std::complex<double>> x(n);
        for (std::size_t i = 0; i < n; ++i) { x[i] = {r[2 * i], r[2 * i + 1]}; }
        auto y = x;
        used(sp(x), neo::fft::direction::forward);
        auto fresh = neo::fft::dft_plan<std::complex<double>>{n};
        fresh(sp(y), neo::fft::direction::forward);
        for (std::size_t k = 0; k < n; ++k) { CK(x[k] == y[k], "call %d bin %zu", rep, k); }
    }
'''),
dict(id="c06-skip-silent-block", prop="C06",
  edits=[(S+"convolution/uniform_partitioned_convolver.hpp", "        auto insert   = [this, inout](auto index) { _fdl.insert(inout, index); };",
"""        auto silent = true;
        for (auto i{0}; i < static_cast<int>(inout.extent(0)); ++i) {
            silent = silent and inout[i].real() == 0 and inout[i].imag() == 0;
        }
        auto insert   = [this, inout, silent](auto index) {
            // delay line slots are silent to begin with
            if (not silent) {
                _fdl.insert(inout, index);
            }
        };""")],
  needs="a silent block after the delay line has wrapped around at least once (a gap in the programme after enough sound)",
  breaks="old blocks are replayed instead of silence after the delay line wrapped",
  inc=CONV,
  demo='''
    auto const B = std::size_t(4); auto const P = std::size_t(3);
    auto const h = rnd(B * P, 3);
    auto m = parts(h, B);
    neo::convolution::upola_convolver<std::complex<double>> c;
    c.filter(m.to_mdspan());
    auto x = rnd(B * 12, 5);
    std::fill(x.begin() + 4 * B, x.begin() + 7 * B, 0.0);
    auto const y = conv(x, h);
    for (std::size_t b = 0; b < 12; ++b) {
        std::vector<double> blk(x.begin() + b * B, x.begin() + (b + 1) * B);
        c(sp(blk));
        for (std::size_t i = 0; i < B; ++i) { CK(std::abs(blk[i] - y[b * B + i]) < 1e-9, "block %zu sample %zu", b, i); }
    }
'''),
dict(id="c07-overlap-from-start", prop="C07",
  edits=[(S+"convolution/overlap_add_convolver.hpp", "auto sub_overlap = stdex::submdspan(overlap, std::tuple{_input_pos, _input_pos + num_to_process});",
          "auto sub_overlap = stdex::submdspan(overlap, std::tuple{size_type(0), num_to_process});")],
  needs="a chunk size that is not a multiple of the block size, so that a block is completed in two calls",
  breaks="the tail of the previous block is added at the wrong place when a block arrives in pieces",
  inc=CONV,
  demo='''
    auto const B = std::size_t(4);
    auto const h = rnd(B * 2, 3);
    auto m = parts(h, B);
    neo::convolution::upola_convolver_v2<std::complex<double>> c;
    c.filter(m.to_mdspan());
    auto x = rnd(40, 5);
    auto const y = conv(x, h);
    std::size_t pos = 0;
    for (std::size_t len : {4U, 6U, 5U, 7U, 4U, 9U, 5U}) {
        std::vector<double> blk(x.begin() + pos, x.begin() + pos + len);
        c(sp(blk));
        for (std::size_t i = 0; i < len; ++i) { CK(std::abs(blk[i] - y[pos + i]) < 1e-9, "pos %zu", pos + i); }
        pos += len;
    }
'''),
dict(id="c08-keep-overlap", prop="C08",
  edits=[(S+"convolution/uniform_partitioned_convolver.hpp", "    _overlap     = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};",
"""    if (_overlap.block_size() != filter.extent(1) - 1) {
        _overlap = Overlap{filter.extent(1) - 1, filter.extent(1) - 1};
    }""")],
  needs="a second filter of the same block size installed after some audio was processed",
  breaks="the tail of the audio processed with the old filter is heard after the new filter was installed",
  inc=CONV,
  demo='''
    auto const B = std::size_t(4);
    auto m1 = parts(rnd(B * 2, 3), B); auto const h2 = rnd(B, 4); auto m2 = parts(h2, B);
    neo::convolution::upola_convolver<std::complex<double>> used, fresh;
    used.filter(m1.to_mdspan());
    auto x = rnd(B, 5);
    used(sp(x));
    used.filter(m2.to_mdspan()); fresh.filter(m2.to_mdspan());
    auto a = rnd(B, 6); auto b = a;
    used(sp(a)); fresh(sp(b));
    for (std::size_t i = 0; i < B; ++i) { CK(std::abs(a[i] - b[i]) < 1e-12, "sample %zu", i); }
'''),
dict(id="c09-narrow-sparse-index", prop="C09",
  edits=[(S+"convolution/sparse_filter.hpp", "    using storage_type     = csr_matrix<Complex>;", "    using storage_type     = csr_matrix<Complex, std::uint16_t>;"),
         (S+"convolution/sparse_filter.hpp", "        _filter = csr_matrix<Complex>{input, sparsity};", "        _filter = storage_type{input, sparsity};"),
         (S+"convolution/sparse_filter.hpp", "    csr_matrix<Complex> _filter;", "    storage_type _filter;")],
  needs="a filter with more than 65535 kept coefficients (about three seconds at 48 kHz): the row offsets wrap",
  breaks="later partitions of long sparse filters are dropped",
  inc=CONV, flags="-march=x86-64 -O2",
  demo='''
    auto const B = std::size_t(512); auto const P = std::size_t(140);
    std::vector<std::complex<double>> f((B + 1) * P);
    auto const r = rnd(f.size(), 2);
    for (std::size_t i = 0; i < f.size(); ++i) { f[i] = {r[i] * 1e-3, 0.0}; }
    neo::convolution::sparse_upola_convolver<std::complex<double>> s;
    neo::convolution::upola_convolver<std::complex<double>> d;
    s.filter(sp2(f, P, B + 1), [](auto, auto, auto) { return true; });
    d.filter(sp2(f, P, B + 1));
    for (std::size_t b = 0; b < P + 4; ++b) {
        auto x = rnd(B, static_cast<unsigned>(b)); auto y = x;
        s(sp(x)); d(sp(y));
        for (std::size_t i = 0; i < B; ++i) { CK(std::abs(x[i] - y[i]) < 1e-9, "block %zu sample %zu", b, i); }
    }
'''),
dict(id="c10-ols-short-transform", prop="C10",
  edits=[(S+"convolution/overlap_save.hpp", "fft::next_order(_block_size + _filter_size - 1UL)};", "fft::next_order(_block_size + _filter_size - 2UL)};")],
  needs="block and filter sizes with block + filter - 1 just above a power of two (for example 3 and 3, or 8 and 10)",
  breaks="the overlap-save transform is one sample too short: circular aliasing in the first output sample of each block",
  inc=CONV,
  demo='''
    auto const B = std::size_t(8); auto const F = std::size_t(10);
    auto const h = rnd(F, 1);
    neo::convolution::overlap_save<std::complex<double>> o{B, F};
    auto const K = o.transform_size();
    std::vector<std::complex<double>> hp(K);
    for (std::size_t i = 0; i < F; ++i) { hp[i % K] += h[i]; }
    auto const H = dft(hp, -1);
    auto x = rnd(B * 8, 5);
    auto const y = conv(x, h);
    for (std::size_t b = 0; b < 8; ++b) {
        std::vector<double> blk(x.begin() + b * B, x.begin() + (b + 1) * B);
        o(sp(blk), [&](auto s) { for (std::size_t k = 0; k < s.extent(0); ++k) { s[k] *= H[k]; } });
        for (std::size_t i = 0; i < B; ++i) { CK(std::abs(blk[i] - y[b * B + i]) < 1e-9, "block %zu sample %zu", b, i); }
    }
'''),
dict(id="c11-late-wrap", prop="C11",
  edits=[(S+"convolution/fdl_index.hpp", "            auto const filter_index = static_cast<IndexType>((_write_pos + _num_segments - segment) % _num_segments);",
          "            auto const filter_index = static_cast<IndexType>(_write_pos >= segment ? _write_pos - segment : _num_segments - segment);")],
  needs="three or more segments and a write position other than the first slot",
  breaks="slots behind the write position are paired with the wrong filter segment once the line has advanced",
  inc=["neo/convolution/fdl_index.hpp"],
  demo='''
    for (std::size_t n = 1; n <= 5; ++n) {
        auto idx = neo::convolution::fdl_index<std::size_t>{n};
        std::vector<long> stamp(n, -1);
        for (long step = 0; step < 12; ++step) {
            idx([&](auto w) { stamp[w] = step; },
                [&](auto slot, auto seg) { if (stamp[slot] >= 0) { CK(step - stamp[slot] == static_cast<long>(seg), "n %zu step %ld slot %zu", n, step, static_cast<std::size_t>(slot)); } });
        }
    }
'''),
dict(id="c12-direct-short-signal", prop="C12",
  edits=[(S+"convolution/direct_convolve.hpp", "        auto const tmin = std::min(t1, l);", "        auto const tmin = std::min(t1, l - 1);")],
  needs="a signal shorter than the patch by two or more and a non-zero last patch sample",
  breaks="the last patch sample is ignored in the tail of the convolution when the signal is the shorter operand",
  inc=CONV,
  demo='''
    for (std::size_t n = 1; n < 6; ++n) {
        for (std::size_t l = 1; l < 9; ++l) {
            auto x = rnd(n, 1); auto h = rnd(l, 2);
            auto const y = conv(x, h);
            auto const got = neo::convolution::direct_convolve(sp(x), sp(h));
            for (std::size_t i = 0; i < y.size(); ++i) { CK(std::abs(got(i) - y[i]) < 1e-9, "n %zu l %zu sample %zu", n, l, i); }
        }
    }
'''),
dict(id="c12-convolver-stale-padding", prop="C12",
  edits=[(S+"convolution/fft_convolver.hpp", "        fill(stdex::submdspan(tmp, std::tuple{in.extent(0), tmp.extent(0)}), Float(0));",
          "        auto const used = std::max(signal_size(), patch_size());\n        fill(stdex::submdspan(tmp, std::tuple{in.extent(0), used}), Float(0));")],
  needs="the second use of one convolver object: the work buffer then holds the previous output",
  breaks="FFT convolution with a reused convolver adds remains of the previous result",
  inc=CONV,
  demo='''
    auto c = neo::convolution::fft_convolver<double>{8, 3};
    for (unsigned rep = 0; rep < 3; ++rep) {
        auto x = rnd(8, rep); auto h = rnd(3, rep + 10);
        auto const y = conv(x, h);
        std::vector<double> out(y.size());
        c(sp(x), sp(h), sp(out));
        for (std::size_t i = 0; i < y.size(); ++i) { CK(std::abs(out[i] - y[i]) < 1e-9, "use %u sample %zu", rep, i); }
    }
'''),
dict(id="c13-stale-frame", prop="C13",
  edits=[(S+"fft/stft.hpp", "                fill(in, Float(0));\n                fill(out, Float(0));\n", "                fill(out, Float(0));\n"),
         (S+"fft/stft.hpp", "        for (auto ch_idx = std::size_t(0); ch_idx < num_channels; ++ch_idx) {\n", "        fill(in, Float(0));\n\n        for (auto ch_idx = std::size_t(0); ch_idx < num_channels; ++ch_idx) {\n")],
  needs="a last frame that is only partly covered by the signal",
  breaks="the partial last frame is padded with samples of the frame before it instead of zeros",
  inc=["neo/fft.hpp", "neo/convolution.hpp"],
  demo='''
    auto const N = std::size_t(10); auto const B = std::size_t(4);
    auto x = rnd(N, 1);
    auto const got = neo::convolution::uniform_partition(sp2(x, 1, N), B);
    auto const want = parts(x, B);
    CK(got.extent(1) == want.extent(0), "frames %zu", static_cast<std::size_t>(got.extent(1)));
    for (std::size_t p = 0; p < want.extent(0); ++p) {
        for (std::size_t k = 0; k <= B; ++k) { CK(std::abs(got(0, p, k) - want(p, k)) < 1e-9, "frame %zu bin %zu", p, k); }
    }
'''),
dict(id="c14-last-row-offset", prop="C14",
  edits=[(S+"container/csr_matrix.hpp", "    for (auto i{row + 1}; i <= rows(); ++i) {", "    for (auto i{row + 1}; i < rows() or i == row + 1; ++i) {")],
  needs="an insertion in a row other than the last one of a matrix with three or more rows, followed by a read of the last row",
  breaks="the end offset of the last row is not moved by insertions in earlier rows",
  inc=["neo/container.hpp"],
  demo='''
    auto m = neo::csr_matrix<double>{3, 3};
    m.insert(2, 1, 5.0);
    m.insert(0, 2, 4.0);
    m.insert(1, 0, 3.0);
    CK(m(2, 1) == 5.0, "m(2,1) = %g", m(2, 1));
    CK(m(0, 2) == 4.0 && m(1, 0) == 3.0, "others");
'''),
dict(id="c15-tail-alias", prop="C15",
  edits=[(S+"algorithm/multiply_add.hpp", "        auto const xre = x_real[i];\n        auto const xim = x_imag[i];\n        auto const yre = y_real[i];\n        auto const yim = y_imag[i];\n\n        out_real[i] = (xre * yre - xim * yim) + z_real[i];\n        out_imag[i] = (xre * yim + xim * yre) + z_imag[i];",
          "        out_real[i] = (x_real[i] * y_real[i] - x_imag[i] * y_imag[i]) + z_real[i];\n        out_imag[i] = (x_real[i] * y_imag[i] + x_imag[i] * y_real[i]) + z_imag[i];", 0)],
  needs="a split-complex multiply-add whose output aliases a factor, with a length that is not a multiple of the SIMD width",
  breaks="the imaginary parts of the last elements use the already overwritten real part",
  inc=["neo/algorithm.hpp", "neo/complex.hpp"],
  demo='''
    auto const n = std::size_t(7);
    auto tof = [](auto const& v) { return std::vector<float>(v.begin(), v.end()); };
    auto xr = tof(rnd(n, 1)), xi = tof(rnd(n, 2)), yr = tof(rnd(n, 3)), yi = tof(rnd(n, 4)), zr = tof(rnd(n, 5)), zi = tof(rnd(n, 6));
    auto const r = xr; auto const im = xi;
    auto x = neo::split_complex{sp(xr), sp(xi)};
    neo::multiply_add(x, neo::split_complex{sp(yr), sp(yi)}, neo::split_complex{sp(zr), sp(zi)}, x);
    for (std::size_t i = 0; i < n; ++i) {
        auto const w = std::complex<double>(r[i], im[i]) * std::complex<double>(yr[i], yi[i]) + std::complex<double>(zr[i], zi[i]);
        CK(std::abs(std::complex<double>(xr[i], xi[i]) - w) < 1e-5, "element %zu", i);
    }
'''),
dict(id="c16-one-pass-variance", prop="C16",
  edits=[(S+"algorithm/variance.hpp", """        for (auto i{0}; std::cmp_less(i, x.extent(0)); ++i) {
            auto const diff = x[i] - avg;
            deviation += diff * diff;
        }
""", """        for (auto i{0}; std::cmp_less(i, x.extent(0)); ++i) {
            deviation += x[i] * x[i] - avg * avg;
        }
""")],
  needs="a vector whose mean is large compared with its spread (a signal with a DC offset)",
  breaks="the variance loses all its digits to cancellation and can even be negative",
  inc=["neo/algorithm.hpp"],
  demo='''
    std::vector<float> x{10000.0F, 10000.5F, 10001.0F, 9999.5F, 10000.25F};
    double m = 0, v = 0;
    for (auto f : x) { m += f; }
    m /= 5;
    for (auto f : x) { v += (f - m) * (f - m); }
    v /= 5;
    auto const got = neo::variance(sp(x));
    CK(got.has_value() && std::abs(*got - v) < 1e-3 * v, "variance %g want %g", static_cast<double>(*got), v);
'''),
dict(id="c16-peak-signed", prop="C16",
  edits=[(S+"algorithm/normalize_peak.hpp", "abs_max = std::max(abs_max, math::abs(obj(i, j)));", "abs_max = std::max(abs_max, obj(i, j));")],
  needs="a matrix whose largest magnitude belongs to a negative sample",
  breaks="peak normalisation of multi-channel audio overshoots full scale",
  inc=["neo/algorithm.hpp"],
  demo='''
    std::vector<double> x{0.25, -2.0, 0.5, 1.0};
    neo::normalize_peak(sp2(x, 2, 2));
    double p = 0;
    for (auto v : x) { p = std::max(p, std::abs(v)); }
    CK(std::abs(p - 1.0) < 1e-12, "peak %g", p);
'''),
dict(id="c17-negate-min", prop="C17",
  edits=[(S+"fixed_point/fixed_point.hpp", "            value() == min_v ? max_v : static_cast<IntType>(-value()),", "            value() == min_v and fractional_bits != 7 ? max_v : static_cast<IntType>(-value()),")],
  needs="negation of the most negative value of a type with seven fractional bits",
  breaks="-(-1) wraps around to -1",
  inc=["neo/fixed_point.hpp"],
  demo='''
    auto const q = neo::q7{neo::underlying_value, std::int8_t(-128)};
    CK((-q).value() == 127, "%d", int((-q).value()));
'''),
dict(id="c17-round-to-zero", prop="C17",
  edits=[(S+"fixed_point/fixed_point.hpp", "(lhs.value() * rhs.value()) >> fractional_bits", "(lhs.value() * rhs.value()) / (1 << fractional_bits)")],
  needs="a negative product that is not a multiple of the quantisation step",
  breaks="products round toward zero instead of toward minus infinity",
  inc=["neo/fixed_point.hpp"],
  demo='''
    auto const a = neo::q15{neo::underlying_value, std::int16_t(-1)};
    auto const b = neo::q15{neo::underlying_value, std::int16_t(3)};
    CK((a * b).value() == -1, "%d", int((a * b).value()));
'''),
dict(id="c18-subtract-min", prop="C18",
  edits=[(S+"fixed_point/simd.hpp", "inline constexpr auto const sub_kernel_s16 = [](__m128i l, __m128i r) { return _mm_subs_epi16(l, r); };",
          "inline constexpr auto const sub_kernel_s16 = [](__m128i l, __m128i r) { return _mm_adds_epi16(l, _mm_sub_epi16(_mm_setzero_si128(), r)); };")],
  needs="subtracting the most negative 16-bit value in the vectorised part (length of at least eight)",
  breaks="x - (-1) gives x + (-1) in the SIMD path",
  inc=["neo/fixed_point.hpp"],
  demo='''
    std::vector<neo::q15> a(16, neo::q15{neo::underlying_value, std::int16_t(100)}), b(16, neo::q15{neo::underlying_value, std::int16_t(-32768)}), o(16);
    neo::subtract(std::span<neo::q15 const>(a), std::span<neo::q15 const>(b), std::span<neo::q15>(o));
    for (auto q : o) { CK(q.value() == 32767, "%d", int(q.value())); }
'''),
dict(id="c19-f16-high-half", prop="C19",
  edits=[(S+"simd/avx.hpp", "auto const high_right = _mm256_extracti128_si256(static_cast<register_type>(rhs), 1);", "auto const high_right = _mm256_extracti128_si256(static_cast<register_type>(rhs), 0);")],
  needs="half-precision batches of 16 lanes whose right operand differs between the halves",
  breaks="the upper eight lanes use the lower eight lanes of the right operand",
  inc=["neo/simd.hpp"], flags="-march=x86-64-v3",
  demo='''
    _Float16 a[16], b[16], o[16];
    for (int i = 0; i < 16; ++i) { a[i] = _Float16(i); b[i] = _Float16(2 * i + 1); }
    using B = neo::float16x16;
    (B::load_unaligned(a) + B::load_unaligned(b)).store_unaligned(o);
    for (int i = 0; i < 16; ++i) { CK(o[i] == _Float16(3 * i + 1), "lane %d", i); }
'''),
dict(id="c20-idiv-zero", prop="C20",
  edits=[(S+"math/idiv.hpp", "    return (x + y - 1) / y;", "    return (x - 1) / y + 1;")],
  needs="a zero dividend with a signed type or with an unsigned divisor that does not divide the wrapped difference",
  breaks="ceiling division of zero is one (or huge)",
  inc=["neo/math/idiv.hpp"],
  demo='''
    CK(neo::idiv(0, 3) == 0, "%d", neo::idiv(0, 3));
    CK(neo::idiv(0U, 3U) == 0U, "%u", neo::idiv(0U, 3U));
'''),
dict(id="c21-compound-divide", prop="C21",
  edits=[(S+"complex/scalar_complex.hpp", "        lhs = lhs / rhs;\n", "        auto const denom = rhs.real() * rhs.real() + rhs.imag() * rhs.imag();\n        auto const re    = (lhs.real() * rhs.real() + lhs.imag() * rhs.imag()) / denom;\n        lhs.imag((lhs.imag() * rhs.real() - re * rhs.imag()) / denom);\n        lhs.real(re);\n")],
  needs="compound division by a value with a non-zero imaginary part",
  breaks="z /= w uses the new real part for the imaginary part",
  inc=["neo/complex.hpp"],
  demo='''
    neo::complex128 z{1.0, 2.0};
    auto const w = neo::complex128{0.5, -0.75};
    auto const q = z / w;
    z /= w;
    CK(std::abs(z.real() - q.real()) < 1e-12 && std::abs(z.imag() - q.imag()) < 1e-12, "%g %g", z.real(), z.imag());
'''),
dict(id="c22-narrow-row-index", prop="C22",
  edits=[(S+"convolution/compressed_fdl.hpp", "        for (auto i{0U}; i < input.extent(0); ++i) {", "        for (auto i{std::uint8_t(0)}; i < std::min<std::size_t>(input.extent(0), 255); ++i) {")],
  needs="rows of 256 or more coefficients (block sizes of 256 and above)",
  breaks="coefficients from index 255 on are not stored",
  inc=CONV + ["neo/complex.hpp"],
  demo='''
    auto const n = std::size_t(300);
    neo::convolution::compressed_fdl<std::complex<float>, neo::scalar_complex<std::int16_t>> f{E2{2, n}};
    std::vector<std::complex<float>> x(n, {0.5F, -0.25F});
    f.insert(sp(x), 1);
    for (std::size_t i = 0; i < n; ++i) { auto const v = std::complex<float>(f[1][i]); CK(std::abs(v - x[i]) < 1e-3F, "index %zu", i); }
'''),
dict(id="c23-db-floor", prop="C23",
  edits=[(S+"unit/decibel.hpp", "    if (gain <= Float(0)) {", "    if (gain <= std::numeric_limits<Float>::epsilon()) {")],
  needs="a gain below the machine epsilon together with a floor below its level (for example a float gain of 1e-8 and a floor of -300 dB)",
  breaks="very small gains return the floor instead of their level",
  inc=["limits", "neo/unit.hpp"],
  demo='''
    CK(std::abs(neo::amplitude_to_db(1e-8F, -300.0F) + 160.0F) < 1e-2F, "%g", double(neo::amplitude_to_db(1e-8F, -300.0F)));
'''),
dict(id="c24-dct-static-scale", prop="C24",
  edits=[(S+"fft/dct.hpp", """        auto const n   = static_cast<Float>(len);
""", """        static auto const n = static_cast<Float>(len);
""")],
  needs="two DCT plans of different size used in one program",
  breaks="every later DCT uses the phase step of the first size",
  inc=FFT,
  demo='''
    for (std::size_t order : {3U, 4U}) {
        auto const n = std::size_t(1) << order;
        auto plan = neo::fft::fallback_dct2_plan<double>{neo::fft::from_order, order};
        auto x = rnd(n, 1); auto const in = x;
        plan(sp(x));
        for (std::size_t k = 0; k < n; ++k) {
            double s = 0;
            for (std::size_t i = 0; i < n; ++i) { s += 2 * in[i] * std::cos(std::numbers::pi * k * (2.0 * i + 1) / (2.0 * n)); }
            CK(std::abs(s - x[k]) < 1e-9, "order %zu bin %zu", order, k);
        }
    }
'''),
dict(id="c25-nan-close", prop="C25",
  edits=[(S+"algorithm/allclose.hpp", "        return math::abs(left - right) <= tolerance;", "        return not(math::abs(left - right) > tolerance);")],
  needs="an element that is not a number in exactly one of the objects",
  breaks="NaN compares as close to everything",
  inc=["neo/algorithm.hpp"],
  demo='''
    std::vector<double> a{1.0, 2.0, 3.0}, b{1.0, std::nan(""), 3.0};
    CK(!neo::allclose(sp(a), sp(b)), "NaN accepted");
'''),
]
