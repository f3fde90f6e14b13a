PL = "extra/plugin/src/"
JUCE = ("juce", "extra/plugin/src")
PLUGIN = ["dsp/AudioBuffer.cpp", "dsp/AudioFile.cpp", "dsp/DenseConvolution.cpp", "dsp/Spectrum.cpp", "PerceptualConvolution.cpp", "PluginParameter.cpp",
          "ui/BenchmarkTab.cpp", "ui/ParameterTab.cpp", "PluginEditor.cpp", "PluginProcessor.cpp"]
TAB = '''
static void store(std::string const& path, std::vector<float> const& h, double rate)
{
    auto s     = std::make_shared<juce::InputStream>();
    s->samples = juce::AudioBuffer<float>{1, int(h.size())};
    for (std::size_t i = 0; i < h.size(); ++i) { s->samples.setSample(0, int(i), h[i]); }
    s->sampleRate                    = rate;
    juce::Disk::get().content[path] = s;
}
template<typename W, typename F>
static W* find(juce::Component& c, F ok)
{
    if (auto* w = dynamic_cast<W*>(&c); w != nullptr && ok(*w)) { return w; }
    for (auto* k : c.children) { if (auto* w = find<W>(*k, ok); w != nullptr) { return w; } }
    if (auto* t = dynamic_cast<juce::TabbedComponent*>(&c); t != nullptr) {
        for (auto& [name, k] : t->tabs) { if (auto* w = find<W>(*k, ok); w != nullptr) { return w; } }
    }
    return nullptr;
}
struct Tab
{
    std::unique_ptr<juce::AudioProcessor> p{createPluginFilter()};
    std::unique_ptr<juce::AudioProcessorEditor> e{p->createEditor()};
    void click(char const* t) { find<juce::TextButton>(*e, [&](auto& b) { return b.text.find(t) != std::string::npos; })->onClick(); }
    void load(char const* button, char const* path)
    {
        click(button);
        juce::FileChooser::open().back()->close(juce::Array<juce::File>{juce::File{juce::String{path}}});
    }
    void engines(std::vector<char const*> const& names)
    {
        juce::Array<juce::var> a;
        for (auto const* n : names) { a.add(juce::var{n}); }
        for (auto& [s, i] : find<juce::PropertyPanel>(*e, [](auto&) { return true; })->items) { if (i->name == "Engine") { i->value.setValue(juce::var{a}); } }
    }
    juce::ThreadPool& pool() { return *juce::ThreadPool::living().back(); }
};
'''
SEEDS = [
dict(id="c34-parallel-jobs", prop="C34", stubs=JUCE,
  edits=[(PL+"ui/BenchmarkTab.hpp", "juce::ThreadPoolOptions{}.withNumberOfThreads(1).withThreadName", "juce::ThreadPoolOptions{}.withNumberOfThreads(2).withThreadName")],
  needs="both block convolution engines are rendered and the second job starts before the first has written its file",
  breaks="both jobs pick the same file name, one result is lost",
  inc=PLUGIN, pre=TAB,
  demo='''
    store("/h.wav", {1.0F, 0.5F}, 48000);
    store("/x.wav", {1.0F, -1.0F, 0.25F, 0.125F}, 48000);
    Tab t;
    t.p->prepareToPlay(48000, 16);
    t.load("Impulse", "/h.wav");
    t.load("Signal", "/x.wav");
    t.engines({"juce::dsp::Convolution", "neo::Convolution"});
    t.click("Render");
    auto jobs = std::move(t.pool().jobs);
    t.pool().jobs.clear();
    CK(jobs.size() == 2, "%zu jobs", jobs.size());
    if (t.pool().threads > 1) {  // the other worker runs when the first one first touches a buffer of its block loop
        int at          = 0;
        juce::scheduler = [&] {
            if (at++ == 3) { auto const step = juce::Atomic{}; jobs[1](); }
        };
        jobs[0]();
        juce::scheduler = nullptr;
    } else {
        jobs[0](), jobs[1]();
    }
    CK(juce::Disk::get().written.size() == 2, "%zu files for two engines", juce::Disk::get().written.size());
'''),
dict(id="c34-resample-again", prop="C34", stubs=JUCE,
  edits=[(PL+"ui/BenchmarkTab.cpp", "    _spec = spec;\n    loadSignalFile(_signalFile);\n    setImpulseResponseFile(_impulseFile);", "    // the signal is in memory already\n    if (_signal.sampleRate > 0.0) {\n        _signal = resample(_signal, spec.sampleRate);\n    }\n    _spec = spec;\n    setImpulseResponseFile(_impulseFile);")],
  needs="the host goes to a lower sample rate and back while a signal is loaded",
  breaks="the rendering uses a signal that lost its upper half on the way",
  inc=PLUGIN, pre=TAB,
  demo='''
    store("/h.wav", {1.0F}, 48000);
    store("/x.wav", {1.0F, -1.0F, 0.25F, 0.125F, 0.5F, -0.5F, 0.75F, -0.25F}, 48000);
    Tab t;
    t.p->prepareToPlay(48000, 16);
    t.load("Impulse", "/h.wav");
    t.load("Signal", "/x.wav");
    t.p->prepareToPlay(24000, 16);
    t.p->prepareToPlay(48000, 16);
    t.engines({"upols_convolver"});
    t.click("Render");
    CK(t.pool().jobs.size() == 1, "one job");
    auto job = t.pool().jobs.front();
    t.pool().jobs.clear();
    job();
    auto const& y = juce::Disk::get().written.begin()->second->samples[0];
    float const x[] = {1.0F, -1.0F, 0.25F, 0.125F, 0.5F, -0.5F, 0.75F, -0.25F};
    CK(y.size() == 8, "%zu samples", y.size());
    for (std::size_t i = 0; i < 8; ++i) { CK(std::abs(y[i] - x[i]) < 1e-3F, "sample %zu: %g instead of %g", i, double(y[i]), double(x[i])); }
'''),
dict(id="c34-prefix-engine", prop="C34", stubs=JUCE,
  edits=[(PL+"ui/BenchmarkTab.cpp", "                if (val.toString() == name) {", "                if (val.toString().contains(name)) {")],
  needs="an engine whose name contains the name of another one is chosen alone",
  breaks="the other engine is rendered too",
  inc=PLUGIN, pre=TAB,
  demo='''
    store("/h.wav", {1.0F, 0.5F}, 48000);
    store("/x.wav", {1.0F, -1.0F, 0.25F, 0.125F}, 48000);
    Tab t;
    t.p->prepareToPlay(48000, 16);
    t.load("Impulse", "/h.wav");
    t.load("Signal", "/x.wav");
    for (auto const* e : {"upols_convolver", "upola_convolver", "upola_convolver_v2", "split_upola_convolver", "split_upols_convolver", "sparse_upola_convolver", "DenseConvolution"}) {
        t.engines({e});
        t.click("Render");
        CK(t.pool().jobs.size() == 1, "%zu jobs for %s", t.pool().jobs.size(), e);
        t.pool().jobs.clear();
    }
'''),
]
