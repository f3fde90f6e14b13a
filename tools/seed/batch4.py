S = "src/neo/"
P = "extra/plugin/src/dsp/"
JUCE = ("juce", "extra/plugin/src")
CONV = ["neo/convolution.hpp"]
FFT = ["neo/fft.hpp"]
ALG = ["neo/algorithm.hpp"]
SEEDS = [
dict(id="c01-twiddle-recurrence", prop="C01",
  edits=[(S+"fft/twiddle.hpp", "        lut[i] = twiddle<Complex>(size, i, dir);", "        lut[i] = i == 0 or size < 8192 ? twiddle<Complex>(size, i, dir) : Complex{lut[i - 1] * twiddle<Complex>(size, 1, dir)};")],
  needs="transforms of 8192 points or more, where the table is generated by repeated multiplication and the rounding errors of the step accumulate",
  breaks="the twiddle factors of long transforms are off by many units of rounding",
  inc=FFT,
  demo='''
    auto const order = std::size_t(16); auto const n = std::size_t(1) << order;
    auto lut = neo::fft::make_twiddle_lut_radix2<std::complex<float>>(n, neo::fft::direction::forward);
    double worst = 0;
    for (std::size_t i = 0; i < n / 2; ++i) { worst = std::max(worst, std::abs(std::complex<double>(lut(i)) - tone(n, 1, i, -1))); }
    CK(worst < 1e-6, "twiddle error %g", worst);
'''),
dict(id="c24-dct-phase-float-wrap", prop="C24",
  edits=[(S+"fft/dct.hpp", "            auto const scale = Float(2) * std::exp(one * pi * Float(i) / (2 * n));", "            auto const phase = static_cast<Float>((i * std::uint16_t(1) * 1U) & 0xFFFFU);\n            auto const scale = Float(2) * std::exp(one * pi * phase / (2 * n));"),
         (S+"fft/dct.hpp", "#include <cstddef>", "#include <cstddef>\n#include <cstdint>")],
  needs="a transform of more than 65536 points, where the phase index wraps",
  breaks="the upper coefficients of very long cosine transforms",
  inc=FFT,
  demo='''
    auto const order = std::size_t(17); auto const n = std::size_t(1) << order;
    auto p = neo::fft::fallback_dct2_plan<double>{neo::fft::from_order, order};
    std::vector<double> x(n, 0.0); x[1] = 1;
    p(sp(x));
    for (std::size_t k = 0; k < n; k += 1013) { CK(std::abs(x[k] - 2 * std::cos(std::numbers::pi * 3 * double(k) / (2.0 * double(n)))) < 1e-6, "coefficient %zu", k); }
'''),
dict(id="c31-shared-dct-buffer", prop="C31",
  edits=[(S+"fft/dct.hpp", "        auto const buf = _buffer.to_mdspan();", "        static auto scratch = stdex::mdarray<std::complex<Float>, stdex::dextents<std::size_t, 1>>{};\n        if (scratch.extent(0) != size()) {\n            scratch = stdex::mdarray<std::complex<Float>, stdex::dextents<std::size_t, 1>>{size()};\n        }\n        auto const buf = scratch.to_mdspan();")],
  needs="two threads that run their own plans of the same size at the same time",
  breaks="plans share one scratch buffer, so concurrent transforms corrupt each other",
  inc=FFT+["atomic", "thread"], flags="-march=x86-64 -pthread",
  demo='''
    std::atomic<int> bad{0};
    auto work = [&](unsigned seed) {
        auto p = neo::fft::fallback_dct2_plan<float>{neo::fft::from_order, 8};
        auto const in = rnd(256, seed);
        std::vector<float> first;
        for (int r = 0; r < 6000 && bad == 0; ++r) {
            std::vector<float> x(in.begin(), in.end());
            p(sp(x));
            if (first.empty()) { auto q = neo::fft::fft_plan<std::complex<double>>{neo::fft::from_order, 2}; first.resize(256);
                for (std::size_t k = 0; k < 256; ++k) { double s = 0; for (std::size_t i = 0; i < 256; ++i) { s += in[i] * std::cos(std::numbers::pi * double((2 * i + 1) * k) / 512.0); } first[k] = float(2 * s); } }
            for (std::size_t k = 0; k < 256; ++k) { if (std::abs(x[k] - first[k]) > 1e-2) { bad = 1; } }
        }
    };
    std::thread a{work, 1U}, b{work, 2U};
    a.join(); b.join();
    CK(bad == 0, "two plans disturb each other");
'''),
dict(id="c31-shared-filter-copy", prop="C31",
  edits=[(S+"convolution/dense_filter.hpp", "    stdex::mdarray<Complex, stdex::dextents<size_t, 2>> _filter;\n};", "    stdex::mdarray<Complex, stdex::dextents<size_t, 2>> _filter;\n    std::shared_ptr<stdex::mdarray<Complex, stdex::dextents<size_t, 2>>> _shared;\n};"),
         (S+"convolution/dense_filter.hpp", "        _filter = stdex::mdarray<Complex, stdex::dextents<size_t, 2>>{input.extents()};\n        copy(input, _filter.to_mdspan());", "        if (_shared == nullptr or _shared->extents() != stdex::dextents<size_t, 2>{input.extents()}) {\n            _shared = std::make_shared<stdex::mdarray<Complex, stdex::dextents<size_t, 2>>>(input.extents());\n        }\n        copy(input, _shared->to_mdspan());"),
         (S+"convolution/dense_filter.hpp", "        auto const subfilter = stdex::submdspan(_filter.to_mdspan(), filter_index, stdex::full_extent);", "        auto const subfilter = stdex::submdspan(_shared->to_mdspan(), filter_index, stdex::full_extent);"),
         (S+"convolution/dense_filter.hpp", "#include <neo/algorithm/multiply_add.hpp>", "#include <neo/algorithm/multiply_add.hpp>\n\n#include <memory>")],
  needs="a copied convolver, one of whose copies is then given another filter of the same shape",
  breaks="the other copy changes its filter as well",
  inc=CONV,
  demo='''
    auto const B = std::size_t(4);
    std::vector<float> h1(8, 0.F), h2(8, 0.F); h1[0] = 1; h2[0] = 5;
    auto f = [&](std::vector<float>& h) { return neo::convolution::uniform_partition(sp2(h, 1, h.size()), B); };
    auto F1 = f(h1), F2 = f(h2);
    neo::convolution::upols_convolver<std::complex<float>> a;
    a.filter(kx::submdspan(F1.to_mdspan(), 0, kx::full_extent, kx::full_extent));
    auto b = a;
    b.filter(kx::submdspan(F2.to_mdspan(), 0, kx::full_extent, kx::full_extent));
    std::vector<float> x{1, 2, 3, 4};
    a(sp(x));
    for (std::size_t i = 0; i < 4; ++i) { CK(std::abs(x[i] - float(i + 1)) < 1e-4, "sample %zu is %f", i, double(x[i])); }
'''),
dict(id="c30-histogram-reference-of-first-frames", prop="C30", stubs=JUCE,
  edits=[(P+"Spectrum.cpp", "auto const bin = std::abs(spectogram(frameIdx, binIdx));\n                max            = std::max(max, bin * bin);", "auto const bin = std::abs(spectogram(frameIdx, binIdx).real());\n                max            = std::max(max, bin * bin);")],
  needs="a spectrogram whose loudest coefficient has an imaginary part",
  breaks="the levels of the histogram are relative to the largest real part instead of the largest magnitude",
  inc=["dsp/AudioBuffer.hpp", "functional", "dsp/Spectrum.cpp"],
  demo='''
    std::vector<std::complex<float>> x{{1.F, 0.F}, {0.F, 10.F}, {0.1F, 0.F}, {1.F, 0.F}};
    auto h = neo::powerHistogram(kx::mdspan<std::complex<float> const, E2>{x.data(), 2, 2}, [](std::size_t) { return 0.F; });
    CK(h[0] == 1 && h[20] == 2 && h[40] == 1, "levels %d %d %d", h[0], h[20], h[40]);
'''),
dict(id="c30-channel-pointer-stride", prop="C30", stubs=JUCE,
  edits=[(P+"AudioFile.cpp", "        channels[i] = std::addressof(buffer(i, 0));", "        channels[i] = buffer.data_handle() + i * std::min(buffer.extent(1), size_t(4096));"),
         (P+"AudioFile.cpp", '#include "AudioFile.hpp"', '#include "AudioFile.hpp"\n\n#include <algorithm>')],
  needs="a buffer with more than one channel and more than 4096 samples",
  breaks="every channel but the first is written from the wrong position",
  inc=["dsp/AudioBuffer.cpp", "dsp/AudioFile.cpp"],
  demo='''
    std::vector<float> x(2 * 5000);
    for (std::size_t i = 0; i < x.size(); ++i) { x[i] = float(i); }
    auto sink = std::make_shared<juce::Written>();
    neo::writeToWavFile(juce::File{nullptr, sink}, sp2(x, 2, 5000), 48000.0, 32);
    CK(sink->samples.size() == 2 && sink->samples[1].size() == 5000 && sink->samples[1][0] == 5000.F, "channel 1 starts with %f", double(sink->samples[1][0]));
'''),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
