P = "extra/plugin/src/dsp/"
JUCE = ("juce", "extra/plugin/src")
PY = ("pybind11", "extra/python/src")
CLI = ("cli", "extra/cli/src")
ADAPTER = '''
struct pass final : neo::ConstantOverlapAdd<float>
{
    using neo::ConstantOverlapAdd<float>::ConstantOverlapAdd;
    void prepareFrame(juce::dsp::ProcessSpec const&) override {}
    void processFrame(juce::dsp::ProcessContextReplacing<float> const&) override {}
    void resetFrame() override {}
};
static std::vector<float> feed(pass& p, std::vector<float> const& x, std::vector<int> const& sizes)
{
    std::vector<float> y;
    std::size_t pos = 0;
    for (int n : sizes) {
        juce::AudioBuffer<float> b{1, n};
        for (int i = 0; i < n; ++i) { b.setSample(0, i, x[pos++]); }
        auto blk = juce::dsp::AudioBlock<float>{b};
        p.process(juce::dsp::ProcessContextReplacing<float>{blk});
        for (int i = 0; i < n; ++i) { y.push_back(b.getSample(0, i)); }
    }
    return y;
}
'''
ENGINE = '''
static std::unique_ptr<juce::InputStream> wav(std::vector<float> const& h, bool bad = false)
{
    auto s = std::make_unique<juce::InputStream>();
    s->samples = juce::AudioBuffer<float>{1, int(h.size())};
    for (std::size_t i = 0; i < h.size(); ++i) { s->samples.setSample(0, int(i), h[i]); }
    s->sampleRate = 48000; s->truncated = bad;
    return s;
}
static std::vector<float> feed(neo::DenseConvolution& e, std::vector<float> const& x, int n)
{
    std::vector<float> y;
    for (std::size_t pos = 0; pos < x.size(); pos += std::size_t(n)) {
        juce::AudioBuffer<float> b{1, n};
        for (int i = 0; i < n; ++i) { b.setSample(0, i, x[pos + std::size_t(i)]); }
        auto blk = juce::dsp::AudioBlock<float>{b};
        e.process(juce::dsp::ProcessContextReplacing<float>{blk});
        for (int i = 0; i < n; ++i) { y.push_back(b.getSample(0, i)); }
    }
    return y;
}
'''
SEEDS = [
dict(id="c26-leftover-from-start", prop="C26", stubs=JUCE,
  edits=[(P+"ConstantOverlapAdd.hpp", "_unusedInput.getReadPointer(ch, initialUnusedCount - _unusedInputCount),", "_unusedInput.getReadPointer(ch, notYetUsedAudioDataOffset > 0 ? _hopSize : 0),")],
  needs="overlapping frames and one buffer that completes two frames whose left-over input still is not used up, i.e. at least four frames per sample",
  breaks="left-over input is kept from the wrong place, so later frames contain samples twice",
  inc=["dsp/ConstantOverlapAdd.hpp"], pre=ADAPTER,
  demo='''
    auto p = pass{3, 3};   // frame 8, hop 1
    p.prepare({48000.0, 3, 1});
    std::vector<float> x(60);
    for (std::size_t i = 0; i < x.size(); ++i) { x[i] = float((i * 7) % 13); }
    auto y = feed(p, x, {3, 3, 1, 2, 3, 1, 2, 3, 3, 2, 1, 3, 3, 3, 3, 3, 2, 3});
    for (std::size_t i = 14; i < y.size(); ++i) { CK(std::abs(y[i] - x[i - 7]) < 1e-4, "sample %zu: %g", i, double(y[i])); }
'''),
dict(id="c26-reset-keeps-input", prop="C26", stubs=JUCE,
  edits=[(P+"ConstantOverlapAdd.hpp", "    _outputOffset     = _frameSize - 1;\n    _unusedInputCount = 0;\n\n    resetFrame();", "    _outputOffset     = _frameSize - 1;\n\n    resetFrame();")],
  needs="a reset while part of a frame is buffered",
  breaks="the first frame after a reset starts with (cleared) input of the old stream: everything is late by that much",
  inc=["dsp/ConstantOverlapAdd.hpp"], pre=ADAPTER,
  demo='''
    auto p = pass{2, 0};
    p.prepare({48000.0, 4, 1});
    std::vector<float> x(16);
    for (std::size_t i = 0; i < x.size(); ++i) { x[i] = float(i + 1); }
    feed(p, x, {4, 2});
    p.reset();
    auto y = feed(p, x, {4, 4, 4, 4});
    for (std::size_t i = 3; i < y.size(); ++i) { CK(std::abs(y[i] - x[i - 3]) < 1e-4, "sample %zu: %g", i, double(y[i])); }
'''),
dict(id="c26-short-shift", prop="C26", stubs=JUCE,
  edits=[(P+"ConstantOverlapAdd.hpp", "        shiftL -= tooMuch;", "        shiftL -= tooMuch;\n    } else if (l == 0) {\n        shiftL = 0;"),
         (P+"ConstantOverlapAdd.hpp", "    auto shiftL           = _outputOffset + _frameSize - _hopSize - l;", "    auto shiftL           = std::max(_outputOffset + (l < _frameSize ? _frameSize - _hopSize : 0) - l, 0);")],
  needs="overlapping frames and a host buffer that is at least as long as a frame",
  breaks="the overlap of the last frame is lost at the end of every long buffer",
  inc=["dsp/ConstantOverlapAdd.hpp"], pre=ADAPTER,
  demo='''
    auto p = pass{2, 1};   // frame 4, hop 2
    p.prepare({48000.0, 8, 1});
    std::vector<float> x(40);
    for (std::size_t i = 0; i < x.size(); ++i) { x[i] = float((i * 7) % 13 + 1); }
    auto y = feed(p, x, {3, 8, 5, 8, 2, 8});
    for (std::size_t i = 6; i < y.size(); ++i) { CK(std::abs(y[i] - x[i - 3]) < 1e-4, "sample %zu: %g", i, double(y[i])); }
'''),
dict(id="c27-drop-response-on-failed-load", prop="C27", stubs=JUCE,
  edits=[(P+"DenseConvolution.cpp", "    auto buffer = juce::AudioBuffer<float>{\n", "    // free the old response before the new one is decoded\n    _impulse.reset();\n\n    auto buffer = juce::AudioBuffer<float>{\n")],
  needs="a file whose decoding fails half way after another response was loaded, followed by prepare or reset",
  breaks="a failed load silently removes the loaded impulse response",
  inc=["dsp/DenseConvolution.hpp", "dsp/DenseConvolution.cpp", "dsp/AudioBuffer.cpp"], pre=ENGINE,
  demo='''
    std::vector<float> h = {0.0F, 0.0F, 1.0F}, x(32, 0.0F);
    x[0] = 1.0F;
    auto e = neo::DenseConvolution{4};
    e.loadImpulseResponse(wav(h));
    e.loadImpulseResponse(wav({1.0F}, true));
    e.prepare({48000.0, 4, 1});
    auto y = feed(e, x, 4);
    for (std::size_t i = 0; i < y.size(); ++i) { CK(std::abs(y[i] - (i == 5 ? 1.0F : 0.0F)) < 1e-5, "sample %zu: %g", i, double(y[i])); }
'''),
dict(id="c27-prepare-only-on-new-shape", prop="C27", stubs=JUCE,
  edits=[(P+"DenseConvolution.cpp", "    _spec = spec;\n    updateImpulseResponse();\n", "    // nothing to rebuild if the stream looks as before\n    auto const same = _spec.has_value() and _spec->numChannels == spec.numChannels\n                  and _spec->maximumBlockSize == spec.maximumBlockSize;\n    _spec = spec;\n    if (not same) {\n        updateImpulseResponse();\n    }\n")],
  needs="prepare is called a second time with the same block size after audio was processed (or with another sample rate)",
  breaks="the new stream starts with the tail of the old one, or plays the response at the old sample rate",
  inc=["dsp/DenseConvolution.hpp", "dsp/DenseConvolution.cpp", "dsp/AudioBuffer.cpp"], pre=ENGINE,
  demo='''
    std::vector<float> h(16, 0.25F), x(32, 0.0F), ones(32, 1.0F);
    auto e = neo::DenseConvolution{4};
    e.loadImpulseResponse(wav(h));
    e.prepare({48000.0, 4, 1});
    feed(e, ones, 4);
    e.prepare({48000.0, 4, 1});
    for (auto v : feed(e, x, 4)) { CK(std::abs(v) < 1e-6, "silence became %g", double(v)); }
'''),
dict(id="c27-level-without-nyquist", prop="C27", stubs=JUCE,
  edits=[(P+"DenseConvolution.cpp", "        for (auto bin{0UL}; bin < filter.extent(1); ++bin) {\n            auto const amplitude", "        for (auto bin{0UL}; bin + 1UL < filter.extent(1); ++bin) {\n            auto const amplitude")],
  needs="an impulse response that is loudest at the Nyquist frequency and a threshold between the two levels",
  breaks="the reference level of the sparse renderer ignores the last bin, so too many coefficients are kept",
  inc=["dsp/DenseConvolution.hpp", "dsp/DenseConvolution.cpp", "dsp/AudioBuffer.cpp"], pre=ENGINE,
  demo='''
    // an alternating response: all energy at the highest bin. Keep nothing but what is within 10 dB of the loudest bin.
    auto const B = 16;
    juce::AudioBuffer<float> h{1, B}, x{1, 2 * B};
    for (int i = 0; i < B; ++i) { h.setSample(0, i, (i % 2 == 0 ? 1.0F : -1.0F)); }
    for (int i = 0; i < 2 * B; ++i) { x.setSample(0, i, i == 0 ? 1.0F : 0.0F); }
    auto const y = neo::sparse_convolve(x, h, B, 44100.0, -12.5F, 1);
    // only the last bin (and bin 0, which is always favoured but empty) survives: a pure alternation over 2B samples
    for (int i = 0; i < 2 * B; ++i) {
        auto const want = (i % 2 == 0 ? 1.0F : -1.0F) * 4.0F / 32.0F;
        CK(std::abs(y.getSample(0, i) - want) < 1e-3F, "sample %d: %g, expected %g", i, double(y.getSample(0, i)), double(want));
    }
'''),
dict(id="c28-ortho-of-input-length", prop="C28", stubs=PY,
  edits=[("extra/python/src/main.cpp", "neo::scale(Float(1) / std::sqrt(Float(size)), out);", "neo::scale(Float(1) / std::sqrt(Float(input.extent(0))), out);")],
  needs="norm='ortho' together with an n that differs from the length of the array",
  breaks="orthonormal transforms of padded or cropped arrays are scaled by the wrong length",
  inc=["main.cpp"],
  demo='''
    auto& m = pybind11_stub_module();
    pybind11::array_t<std::complex<float>> a(4);
    for (int i = 0; i < 4; ++i) { a.mutable_at(i) = 1.0F; }
    auto r = std::any_cast<pybind11::array>(m.call("fft", {pybind11::value{static_cast<pybind11::array const&>(a)}, pybind11::value{16L}, m.enums["norm"]["ortho"]}));
    std::complex<float> v; std::memcpy(&v, r._data, sizeof(v));
    CK(std::abs(v - std::complex<float>(1.0F)) < 1e-5F, "X[0] = %g", double(v.real()));
'''),
dict(id="c28-allocate-without-lock", prop="C28", stubs=PY,
  edits=[("extra/python/src/main.cpp", "    auto out  = py::array_t<double>(static_cast<py::ssize_t>(n));\n    auto view = to_mdspan_layout_right<1>(out);\n\n    {\n        auto no_gil = py::gil_scoped_release{};\n        neo::rfftfreq(view, invSampleRate);\n    }\n", "    auto no_gil = py::gil_scoped_release{};\n    auto out    = py::array_t<double>(static_cast<py::ssize_t>(n));\n    neo::rfftfreq(to_mdspan_layout_right<1>(out), invSampleRate);\n")],
  needs="another Python thread running at the same time: the result array is allocated and reference-counted without the interpreter lock",
  breaks="Python objects are created and reference-counted without holding the interpreter lock",
  inc=["main.cpp"],
  demo='''
    auto& m = pybind11_stub_module();
    pybind11::stub::offences = 0;
    auto r = m.call("rfftfreq", {pybind11::value{8L}, pybind11::value{1.0}});
    CK(pybind11::stub::offences == 0, "%d uses of Python objects without the lock", pybind11::stub::offences);
'''),
dict(id="c29-accept-truncated-file", prop="C29", stubs=CLI,
  edits=[("extra/cli/src/wav.hpp", "    if (read != interleaved.extent(1)) {", "    if (read == 0 and interleaved.extent(1) != 0) {")],
  needs="a file whose header announces more frames than it contains",
  breaks="truncated files are convolved as if they were complete",
  inc=[], flags="-march=x86-64 -Dconv=neo_demo_conv", pre='#undef conv\n#define main neo_cli_main\n#include "convolver.cpp"\n#undef main\n',
  demo='''
    for (auto const* n : {"s.wav", "f.wav"}) {
        auto& f = wavstub::files[n];
        f.channels = 1; f.rate = 48000; f.interleaved = {1.0F, 0.5F, 0.25F, 0.0F}; f.announced = 4;
    }
    wavstub::files["f.wav"].announced = 9;
    std::string a[] = {"neo", "s.wav", "f.wav", "o.wav"};
    char* argv[] = {a[0].data(), a[1].data(), a[2].data(), a[3].data(), nullptr};
    CK(neo_cli_main(4, argv) != 0, "a truncated filter was accepted");
'''),
dict(id="c29-rate-through-16-bit", prop="C29", stubs=CLI,
  edits=[("extra/cli/src/wav.hpp", "    format.sampleRate    = static_cast<std::uint32_t>(sampleRate);", "    format.sampleRate    = static_cast<std::uint16_t>(static_cast<std::uint32_t>(sampleRate));")],
  needs="files with a sample rate above 65535 Hz",
  breaks="the output of 96 kHz material is labelled with another sample rate",
  inc=[], flags="-march=x86-64 -Dconv=neo_demo_conv", pre='#undef conv\n#define main neo_cli_main\n#include "convolver.cpp"\n#undef main\n',
  demo='''
    for (auto const* n : {"s.wav", "f.wav"}) {
        auto& f = wavstub::files[n];
        f.channels = 1; f.rate = 96000; f.interleaved = {1.0F, 0.5F, 0.25F, 0.0F}; f.announced = 4;
    }
    std::string a[] = {"neo", "s.wav", "f.wav", "o.wav"};
    char* argv[] = {a[0].data(), a[1].data(), a[2].data(), a[3].data(), nullptr};
    CK(neo_cli_main(4, argv) == 0, "failed");
    CK(wavstub::files["o.wav"].rate == 96000, "rate %u", wavstub::files["o.wav"].rate);
'''),
]
