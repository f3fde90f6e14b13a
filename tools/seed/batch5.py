S = "src/neo/"
PL = "extra/plugin/src/"
JUCE = ("juce", "extra/plugin/src")
VEN = ("vendor", "src")
PLUGIN = ["dsp/AudioBuffer.cpp", "dsp/AudioFile.cpp", "dsp/DenseConvolution.cpp", "dsp/Spectrum.cpp", "PerceptualConvolution.cpp", "PluginParameter.cpp",
          "ui/BenchmarkTab.cpp", "ui/ParameterTab.cpp", "PluginEditor.cpp", "PluginProcessor.cpp"]
HOST = '''
static void disk(std::vector<float> const& h)
{
    auto s     = std::make_shared<juce::InputStream>();
    s->samples = juce::AudioBuffer<float>{1, int(h.size())};
    for (std::size_t i = 0; i < h.size(); ++i) { s->samples.setSample(0, int(i), h[i]); }
    s->sampleRate              = 48000.0;
    juce::Disk::get()          = {};
    juce::Disk::get().anything = s;
}
static std::vector<float> play(juce::AudioProcessor& p, std::vector<float> const& x, int n)
{
    std::vector<float> y;
    for (std::size_t at = 0; at < x.size(); at += std::size_t(n)) {
        juce::AudioBuffer<float> b{2, n};
        for (int i = 0; i < n; ++i) { b.setSample(0, i, x[at + std::size_t(i)]); b.setSample(1, i, x[at + std::size_t(i)]); }
        auto midi = juce::MidiBuffer{};
        p.processBlock(b, midi);
        for (int i = 0; i < n; ++i) { y.push_back(b.getSample(0, i)); }
    }
    return y;
}
static juce::AudioParameterFloat& par(juce::AudioProcessor& p, char const* id) { return *neo::getFloatParameter(dynamic_cast<neo::PluginProcessor&>(p).getState(), id); }
'''
SEEDS = [
dict(id="c33-skip-dry", prop="C33", stubs=JUCE,
  edits=[(PL+"PerceptualConvolution.cpp", "        _convolution->process(context);\n", "        // the wet path is not heard at all when fully dry\n        if (_wet > 0.0F) {\n            _convolution->process(context);\n        }\n")],
  needs="the mix is turned to fully dry for a while and then back while sound is playing",
  breaks="input played while dry never reaches the convolution: its tail and the timing of everything after it are wrong once the mix is raised",
  inc=PLUGIN, pre=HOST,
  demo='''
    disk({1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F, 1.0F});
    auto run = [](float first) {
        auto p = std::unique_ptr<juce::AudioProcessor>{createPluginFilter()};
        p->prepareToPlay(48000.0, 4);
        par(*p, neo::ParamID::wet) = first;
        play(*p, {1.0F, 2.0F, 3.0F, 4.0F}, 4);
        par(*p, neo::ParamID::wet) = 1.0F;
        return play(*p, std::vector<float>(16, 0.0F), 4);
    };
    auto const a = run(1.0F), b = run(0.0F);
    for (std::size_t i = 0; i < a.size(); ++i) { CK(std::abs(a[i] - b[i]) < 1e-4F, "sample %zu: %g and %g", i, double(a[i]), double(b[i])); }
'''),
dict(id="c33-reuse-engine", prop="C33", stubs=JUCE,
  edits=[(PL+"PerceptualConvolution.cpp", "    _convolution = std::make_unique<DenseConvolution>(static_cast<int>(spec.maximumBlockSize));\n    _convolution->loadImpulseResponse(impulse.createInputStream());\n",
          "    // decode the response only once\n    if (not _convolution) {\n        _convolution = std::make_unique<DenseConvolution>(static_cast<int>(spec.maximumBlockSize));\n        _convolution->loadImpulseResponse(impulse.createInputStream());\n    }\n")],
  needs="the host prepares a second time with another block size",
  breaks="the latency stays that of the first block size",
  inc=PLUGIN, pre=HOST,
  demo='''
    disk({1.0F});
    auto p = std::unique_ptr<juce::AudioProcessor>{createPluginFilter()};
    p->prepareToPlay(48000.0, 16);
    p->prepareToPlay(48000.0, 4);
    std::vector<float> x(32, 0.0F);
    x[0] = 1.0F;
    auto const y = play(*p, x, 4);
    for (std::size_t i = 0; i < y.size(); ++i) { CK(std::abs(y[i] - (i == 3 ? 1.0F : 0.0F)) < 1e-4F, "sample %zu: %g", i, double(y[i])); }
'''),
dict(id="c33-append-state", prop="C33", stubs=JUCE,
  edits=[(PL+"PluginProcessor.cpp", "    juce::MemoryOutputStream stream(destData, false);", "    juce::MemoryOutputStream stream(destData, destData.getSize() > 0);")],
  needs="the host hands in a memory block that still holds an older state",
  breaks="the saved block begins with the older state, so restoring brings that back",
  inc=PLUGIN, pre=HOST,
  demo='''
    disk({1.0F});
    auto p = std::unique_ptr<juce::AudioProcessor>{createPluginFilter()};
    juce::MemoryBlock m;
    par(*p, neo::ParamID::outGain) = 0.5F;
    p->getStateInformation(m);
    par(*p, neo::ParamID::outGain) = 2.0F;
    p->getStateInformation(m);
    par(*p, neo::ParamID::outGain) = 1.0F;
    p->setStateInformation(m.getData(), int(m.getSize()));
    CK(std::abs(par(*p, neo::ParamID::outGain).get() - 2.0F) < 1e-4F, "restored %g", double(par(*p, neo::ParamID::outGain).get()));
'''),
dict(id="c32-ipp-forget-strided-copy", prop="C32", stubs=VEN, flags="-march=x86-64 -DNEO_HAS_INTEL_IPP=1",
  edits=[(S+"fft/backend/ipp.hpp", "        auto buf = _buffer.to_mdspan();\n        copy(input, buf);\n        (*this)(buf, dir);\n        copy(buf, output);", "        if constexpr (always_vectorizable<OutVec>) {\n            copy(input, output);\n            (*this)(output, direction::forward);\n        } else {\n            auto buf = _buffer.to_mdspan();\n            copy(input, buf);\n            (*this)(buf, dir);\n            copy(buf, output);\n        }", 0)],
  needs="IPP backend, an inverse transform from a strided input into a contiguous output",
  breaks="the inverse transform is a forward transform there",
  inc=["neo/fft.hpp"],
  demo='''
    auto plan = neo::fft::fft_plan<std::complex<double>>{neo::fft::from_order, 3};
    std::vector<std::complex<double>> x(16), y(8), z(8);
    for (std::size_t i = 0; i < 8; ++i) { z[i] = x[2 * i] = {double(i % 3), double(i % 5)}; }
    auto const m  = stdex::layout_stride::mapping<stdex::dextents<std::size_t, 1>>{stdex::dextents<std::size_t, 1>{8}, std::array<std::size_t, 1>{2}};
    auto const in = stdex::mdspan<std::complex<double> const, stdex::dextents<std::size_t, 1>, stdex::layout_stride>{x.data(), m};
    plan(in, sp(y), neo::fft::direction::backward);
    plan(sp(z), neo::fft::direction::backward);
    for (std::size_t i = 0; i < 8; ++i) { CK(std::abs(y[i] - z[i]) < 1e-9, "bin %zu", i); }
'''),
]
