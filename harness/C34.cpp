// MC-TITLE: The benchmark tab renders what is loaded, through every order of events
// MC-TECH: all words over {open and cancel dialogs, load files, settings, host prepare, render, run a job, deliver messages, close and reopen the editor} on the real editor in a stand-in host; every rendering preempted at every yield point by every event (one preemption, thorough two); each written file, image and line compared with a model
// MC-QUICK: v3
// MC-THOROUGH: gcc v3rel
// MC-PARTS: 4
// MC-INCLUDE: repo:extra/plugin/src verif:stubs/juce
// MC-BOUNDS: Files: readable, unreadable and missing ones of 1 or 2 channels, impulse responses of 1, 300, 511..513, 700, 4096 and 4097 frames, signals of 1, 90, 4096, 4097 and 9000 frames, two sample rates. Words: all of length 3 over 17 events (thorough 4) and, with files loaded, all of length 4 over 7 events (thorough 6). Renderings: all nine engines, every shape pair. Schedules: all nine engines, every yield point of the job (accesses to shared buffers, files, messages), seven events. Quality test: two file pairs, all 180 ranges.
// MC-ASSUME: JUCE is replaced by a stand-in (stubs/juce); events on the message thread are atomic and a job is preempted only where it calls JUCE; closing the editor waits for a running job; jobs overlap only if the pool has more than one thread; files do not change on disk; block sizes of the host are at least two; a rendering may use the files and settings of the moment it was requested or of the moment it runs.
#include "convcommon.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"
#include "dsp/Spectrum.cpp"

#include "PerceptualConvolution.cpp"
#include "PluginParameter.cpp"

#include "ui/BenchmarkTab.cpp"
#include "ui/ParameterTab.cpp"

#include "PluginEditor.cpp"
#include "PluginProcessor.cpp"

using namespace cc;

namespace {

using matrix2 = std::vector<rvec>;  // [channel][sample]
using buffer  = juce::AudioBuffer<float>;

auto content(std::size_t channels, std::size_t len, int salt) -> matrix2
{
    matrix2 h;
    for (std::size_t c = 0; c < channels; ++c) {
        auto x = dense(len, salt + int(c) * 5);
        for (std::size_t i = 0; i < len; ++i) {
            x[i] *= 1.0L / (1 + real(i) / 64);
        }
        x[0] += 1;
        x[len - 1] -= real(c + 1) / 4;
        h.push_back(x);
    }
    return h;
}

auto to_buffer(matrix2 const& m) -> buffer
{
    buffer b{int(m.size()), int(m[0].size())};
    for (std::size_t c = 0; c < m.size(); ++c) {
        for (std::size_t i = 0; i < m[c].size(); ++i) {
            b.setSample(int(c), int(i), float(m[c][i]));
        }
    }
    return b;
}

auto to_matrix(buffer const& b) -> matrix2
{
    matrix2 m(std::size_t(b.getNumChannels()), rvec(std::size_t(b.getNumSamples())));
    for (std::size_t c = 0; c < m.size(); ++c) {
        for (std::size_t i = 0; i < m[c].size(); ++i) {
            m[c][i] = b.getSample(int(c), int(i));
        }
    }
    return m;
}

void store(std::string const& path, matrix2 const& m, double rate, bool readable = true)
{
    auto s                           = std::make_shared<juce::InputStream>();
    s->samples                       = to_buffer(m);
    s->sampleRate                    = rate;
    s->readable                      = readable;
    juce::Disk::get().content[path] = s;
}

constexpr char const* engines[] = {
    "juce::dsp::Convolution", "neo::Convolution", "DenseConvolution", "upols_convolver", "upola_convolver",
    "upola_convolver_v2", "split_upola_convolver", "split_upols_convolver", "sparse_upola_convolver",
};
enum { e_juce, e_neo, e_dense, e_sparse = 8, e_count };

/// what a rendering works on
struct input
{
    std::string signal_file, impulse_file;
    juce::dsp::ProcessSpec spec{};
    float range{90};
    int bins{10};
};

auto at_rate(std::string const& path, double rate) -> buffer
{
    auto const s = juce::Disk::get().content.at(path);
    return neo::resample({s->samples, s->sampleRate}, rate).buffer;
}

struct expectation
{
    matrix2 y;
    real tol{0};
};

auto generation() -> long&
{
    static long g = 0;
    return g;
}

auto render_model(int engine, input const& in) -> expectation
{
    auto const xb = at_rate(in.signal_file, in.spec.sampleRate);
    auto const hb = at_rate(in.impulse_file, in.spec.sampleRate);
    auto const x  = to_matrix(xb);
    auto h        = to_matrix(hb);
    auto const n  = x[0].size();
    real xs = 0, hs = 0;
    for (auto const& c : x) {
        xs = std::max(xs, l2(c));
    }
    for (auto const& c : h) {
        hs = std::max(hs, l2(c));
    }
    expectation e;
    if (engine == e_sparse) {
        e.y = to_matrix(neo::sparse_convolve(xb, hb, 4096, in.spec.sampleRate, -in.range, in.bins));
    } else {
        for (std::size_t c = 0; c < x.size(); ++c) {
            auto y = stream(x[c], h[std::min(c, h.size() - 1)]);
            if (engine == e_neo) {  // filters whole blocks, see C27
                for (std::size_t i = n / 4096 * 4096; i < n; ++i) {
                    y[i] = x[c][i];
                }
            } else if (engine == e_dense) {
                std::size_t frame = 1;
                while (frame < in.spec.maximumBlockSize) {
                    frame *= 2;
                }
                y.insert(y.begin(), frame - 1, 0.0L);
                y.resize(n);
            }
            e.y.push_back(y);
        }
    }
    real peak = 0;
    for (auto const& c : e.y) {
        for (auto v : c) {
            peak = std::max(peak, std::abs(v));
        }
    }
    // relative to the loudest the convolution gets, not to the part that is kept
    e.tol = peak == 0 ? eps<float>() * 400 * (xs * hs + 1) : eps<float>() * 400 * (1 + xs * hs / (engine == e_sparse ? peak * hs : peak));
    for (auto& c : e.y) {
        for (auto& v : c) {
            v = peak == 0 ? v : v / peak;
        }
    }
    return e;
}

auto rendering(int engine, input const& in) -> expectation const&
{
    static std::map<std::tuple<long, int, std::string, std::string, double, unsigned, float, int>, expectation> memo;
    auto const key = std::tuple{generation(), engine, in.signal_file, in.impulse_file, in.spec.sampleRate, unsigned(in.spec.maximumBlockSize), engine == e_sparse ? in.range : 0.0F, engine == e_sparse ? in.bins : 0};
    auto it        = memo.find(key);
    if (it == memo.end()) {
        it = memo.emplace(key, render_model(engine, in)).first;
    }
    return it->second;
}

auto matches(juce::Written const& w, expectation const& e) -> std::string
{
    if (w.samples.size() != e.y.size() || w.channels != e.y.size()) {
        return mc::format("%zu channels instead of %zu", w.samples.size(), e.y.size());
    }
    for (std::size_t c = 0; c < e.y.size(); ++c) {
        if (w.samples[c].size() != e.y[c].size()) {
            return mc::format("%zu samples instead of %zu", w.samples[c].size(), e.y[c].size());
        }
        for (std::size_t i = 0; i < e.y[c].size(); ++i) {
            if (!(std::abs(real(w.samples[c][i]) - e.y[c][i]) <= e.tol)) {
                return mc::format("channel %zu sample %zu is %g instead of %Lg (tolerance %Lg)", c, i, double(w.samples[c][i]), e.y[c][i], e.tol);
            }
        }
    }
    return {};
}

auto a_weight(std::size_t bin, double rate) -> double
{
    if (bin == 0) {
        return 0;
    }
    auto const f2 = std::pow(double(bin) * rate / 1024, 2);
    auto const sq = [](double v) { return v * v; };
    return 2.0 + 20 * std::log10(sq(12194.217) * f2 * f2 / ((f2 + sq(20.598997)) * std::sqrt((f2 + sq(107.65265)) * (f2 + sq(737.86223))) * (f2 + sq(12194.217))));
}

struct rendered
{
    int engine;
    input requested;
};

struct world
{
    std::unique_ptr<juce::AudioProcessor> owner{createPluginFilter()};
    std::unique_ptr<juce::AudioProcessorEditor> editor;
    input now;
    std::vector<int> chosen;
    bool weighted{true};
    std::vector<rendered> pending;
    std::size_t files{0};
    long lines{0};
    long announced{0};    // lines that messages on their way will add
    long value_msgs{0};   // of which the number depends on what is loaded when they arrive

    world()
    {
        juce::MessageManager::queue().clear();
        juce::FileChooser::open().clear();
        juce::Disk::get().written.clear();
        now.spec = processor().getProcessSpec();
    }
    world(world const&)                    = delete;
    auto operator=(world const&) -> world& = delete;
    ~world() { juce::scheduler = nullptr; }

    [[nodiscard]] auto processor() const -> neo::PluginProcessor& { return dynamic_cast<neo::PluginProcessor&>(*owner); }

    template<typename W>
    static auto find(juce::Component& c, std::function<bool(W&)> const& ok) -> W*
    {
        if (auto* w = dynamic_cast<W*>(&c); w != nullptr && ok(*w)) {
            return w;
        }
        for (auto* k : c.children) {
            if (auto* w = find<W>(*k, ok); w != nullptr) {
                return w;
            }
        }
        if (auto* t = dynamic_cast<juce::TabbedComponent*>(&c); t != nullptr) {
            for (auto& [name, k] : t->tabs) {
                if (auto* w = find<W>(*k, ok); w != nullptr) {
                    return w;
                }
            }
        }
        return nullptr;
    }
    template<typename W>
    auto widget(std::function<bool(W&)> const& ok, char const* what) const -> W&
    {
        mc::require(editor != nullptr, "no editor");
        auto* w = find<W>(*editor, ok);
        mc::require(w != nullptr, "there is no %s", what);
        return *w;
    }
    void click(char const* text) const
    {
        auto& b = widget<juce::TextButton>([&](juce::TextButton& t) { return t.text.find(text) != std::string::npos; }, text);
        mc::require(bool(b.onClick), "the button %s does nothing", text);
        b.onClick();
    }
    [[nodiscard]] auto setting(char const* name) const -> juce::Value
    {
        auto& p = widget<juce::PropertyPanel>([](auto&) { return true; }, "property panel");
        for (auto& [section, item] : p.items) {
            if (item->name == name) {
                return item->value;
            }
        }
        mc::fail("there is no setting %s", name);
    }
    [[nodiscard]] auto text() const -> juce::TextEditor& { return widget<juce::TextEditor>([](auto&) { return true; }, "text"); }
    [[nodiscard]] auto count_lines() const -> long { return editor == nullptr ? 0 : long(std::count(text().text.begin(), text().text.end(), '\n')); }

    // --- events -----------------------------------------------------------------------------------
    void open()
    {
        if (editor == nullptr) {
            editor.reset(owner->createEditor());
            mc::require(editor != nullptr, "there is no editor");
            now       = input{};
            now.spec  = processor().getProcessSpec();
            weighted  = true;
            lines     = 0;
            announced = value_msgs = 0;
            chosen.clear();
            pending.clear();
        }
    }
    void close()
    {
        editor.reset();
        pending.clear();
        announced = value_msgs = 0;
        mc::require(juce::FileChooser::open().empty(), "a dialog outlives the editor");
    }
    void dialog(bool impulse, std::optional<std::string> const& path)
    {
        click(impulse ? "Impulse" : "Signal");
        mc::require(juce::FileChooser::open().size() == 1, "%zu dialogs are open", juce::FileChooser::open().size());
        auto* d = juce::FileChooser::open().back();
        d->close(path ? juce::Array<juce::File>{juce::File{juce::String{*path}}} : juce::Array<juce::File>{});
        if (!path || !juce::Disk::get().content.contains(*path)) {
            return;
        }
        auto const readable = juce::Disk::get().content.at(*path)->readable;
        if (impulse && readable) {
            now.impulse_file = *path;
            impulse_loaded();
        }
        if (!impulse) {
            now.signal_file = *path;
        }
    }
    [[nodiscard]] auto has_tail() const -> bool { return !now.impulse_file.empty() && at_rate(now.impulse_file, now.spec.sampleRate).getNumSamples() > 512; }
    void impulse_loaded()
    {
        lines = 1 + (has_tail() ? 1 : 0);
        mc::require(text().text.rfind(juce::File{juce::String{now.impulse_file}}.getFileName(), 0) == 0, "the text does not start with the name of the impulse response: %s", text().text.c_str());
        check_views();
    }
    void prepare(double rate, int block)
    {
        processor().prepareToPlay(rate, block);
        now.spec = {rate, juce::uint32(block), 2};
        if (editor != nullptr && !now.impulse_file.empty()) {
            impulse_loaded();
        }
    }
    void choose(std::vector<int> const& e)
    {
        chosen = e;
        juce::Array<juce::var> a;
        for (auto i : e) {
            a.add(juce::var{engines[i]});
        }
        setting("Engine").setValue(juce::var{a});
    }
    void set_range(float r)
    {
        if (now.range != r) {
            value_msgs += 1;
        }
        now.range = r;
        setting("Dynamic Range").setValue(juce::var{r});
    }
    void set_weighting(bool w)
    {
        if (weighted != w) {
            value_msgs += 1;
        }
        weighted = w;
        setting("Weighting").setValue(juce::var{w ? "A-Weighting" : "No Weighting"});
    }
    void set_bins(int b)
    {
        now.bins = b;
        setting("Keep Low Bins").setValue(juce::var{b});
    }
    [[nodiscard]] auto renderable() const -> bool
    {
        return !now.signal_file.empty() && !now.impulse_file.empty() && juce::Disk::get().content.at(now.signal_file)->readable;
    }
    [[nodiscard]] static auto jobs() -> std::size_t
    {
        std::size_t n = 0;
        for (auto* p : juce::ThreadPool::living()) {
            n += p->jobs.size();
        }
        return n;
    }
    void render()
    {
        click("Render");
        if (renderable()) {
            for (auto e : chosen) {
                pending.push_back({e, now});
            }
        }
        mc::require(jobs() == pending.size(), "%zu renderings are waiting instead of %zu", jobs(), pending.size());
    }
    /// the worker runs its next job
    void work()
    {
        for (auto* p : juce::ThreadPool::living()) {
            if (!p->jobs.empty()) {
                auto job = std::move(p->jobs.front());
                p->jobs.pop_front();
                auto const r = pending.front();
                pending.erase(pending.begin());
                job();
                check_written(r);
                return;
            }
        }
        mc::require(pending.empty(), "a rendering was forgotten");
    }
    void check_written(rendered const& r)
    {
        auto const& w = juce::Disk::get().written;
        mc::require(w.size() == files + 1, "%s: %zu files instead of %zu", engines[r.engine], w.size(), files + 1);
        files = w.size();
        announced += 1;
        juce::Written const* fresh = nullptr;
        for (auto const& [path, f] : w) {
            mc::require(f->opened == 1 && f->alive == 0, "%s was opened %d times and is %s", path.c_str(), f->opened, f->alive == 0 ? "closed" : "still open");
            if (!known.contains(path)) {
                known.insert(path);
                fresh = f.get();
            }
        }
        mc::require(fresh != nullptr, "no new file");
        std::string why;
        for (auto const& in : {r.requested, now}) {
            if (fresh->sampleRate == in.spec.sampleRate) {
                auto const m = matches(*fresh, rendering(r.engine, in));
                if (m.empty()) {
                    return;
                }
                why = m;
            } else {
                why = mc::format("sample rate %g instead of %g", fresh->sampleRate, in.spec.sampleRate);
            }
        }
        mc::fail("%s: %s", engines[r.engine], why.c_str());
    }
    std::set<std::string> known;

    void deliver()
    {
        auto& q = juce::MessageManager::queue();
        for (int guard = 0; !q.empty(); ++guard) {
            mc::require(guard < 10000, "messages without end");
            auto m = std::move(q.front());
            q.pop_front();
            m();
            mc::transition();
        }
        if (editor != nullptr) {
            lines += announced + (has_tail() ? value_msgs : 0);
            mc::require(count_lines() == lines, "the text has %ld lines instead of %ld:\n%s", count_lines(), lines, text().text.c_str());
            announced = value_msgs = 0;
            check_views();
        }
        announced = value_msgs = 0;
    }

    // --- views ------------------------------------------------------------------------------------
    struct view
    {
        std::size_t frames{0}, bins{0};
        std::vector<int> pixel;  // 1: shown, 0: not shown, -1: too close to tell
        std::vector<int> bars;
        int width{0}, height{0};
        bool tail{false};
        double share_low{0}, share_high{0};
    };
    static auto heights(juce::Image const& i) -> std::vector<int>
    {
        std::vector<int> r;
        for (int x = 4; x < i.getWidth(); x += 8) {
            int n = 0;
            for (int y = 0; y < i.getHeight(); ++y) {
                auto const c = i.getPixelAt(x, y);
                n += c.r > 0.9F && c.g > 0.3F;
            }
            r.push_back(n);
        }
        return r;
    }
    [[nodiscard]] auto view_model() const -> view
    {
        view v;
        auto const h     = at_rate(now.impulse_file, now.spec.sampleRate);
        auto const rate  = now.spec.sampleRate;
        auto const frame = neo::fft::stft(neo::to_mdarray(h).to_mdspan(), 1024);
        auto const first = stdex::submdspan(frame.to_mdspan(), 0, stdex::full_extent, stdex::full_extent);
        v.frames = first.extent(0), v.bins = first.extent(1);
        double top = 0;
        for (std::size_t f = 0; f < v.frames; ++f) {
            for (std::size_t k = 0; k < v.bins; ++k) {
                top = std::max(top, double(std::norm(first(f, k))));
            }
        }
        for (std::size_t f = 0; f < v.frames; ++f) {
            for (std::size_t k = 0; k < v.bins; ++k) {
                auto const d = 10 * std::log10(double(std::norm(first(f, k))) / top);
                auto const l = d + (weighted ? a_weight(k, rate) : 0.0);
                // the level scale ends at -72 dB, see C30
                v.pixel.push_back(!(top > 0) || d < -70 || std::abs(l + double(now.range)) < 0.01 ? -1 : int(l > -double(now.range)));
            }
        }
        auto const want = neo::powerHistogramImage(first, [&](std::size_t k) { return weighted ? float(a_weight(k, rate)) : 0.0F; });
        v.bars = heights(want), v.width = want.getWidth(), v.height = want.getHeight();
        auto const m = to_matrix(h);
        v.tail       = m[0].size() > 512;
        if (v.tail) {
            matrix2 tail;
            for (auto const& c : m) {
                tail.emplace_back(c.begin() + 512, c.end());
            }
            auto const parts = neo::convolution::uniform_partition(neo::to_mdarray(to_buffer(tail)).to_mdspan(), 512);
            long low = 0, high = 0, total = 0;
            top = 0;
            for (int pass = 0; pass < 2; ++pass) {
                for (std::size_t c = 0; c < parts.extent(0); ++c) {
                    for (std::size_t f = 0; f < parts.extent(1); ++f) {
                        for (std::size_t k = 0; k < parts.extent(2); ++k) {
                            auto const p = double(std::norm(parts(c, f, k)));
                            if (pass == 0) {
                                top = std::max(top, p);
                                continue;
                            }
                            auto const l = std::max(-72.0, 10 * std::log10(p / top)) + (weighted ? a_weight(k, rate) : 0.0);
                            low += l > -double(now.range) + 0.01;
                            high += l > -double(now.range) - 0.01;
                            total += 1;
                        }
                    }
                }
            }
            v.share_low = 100.0 * double(low) / double(total), v.share_high = 100.0 * double(high) / double(total);
        }
        return v;
    }
    void check_views()
    {
        if (editor == nullptr || now.impulse_file.empty() || !views || value_msgs > 0) {
            return;
        }
        static std::map<std::tuple<long, std::string, double, float, bool>, view> memo;
        auto const key = std::tuple{generation(), now.impulse_file, now.spec.sampleRate, now.range, weighted};
        auto it        = memo.find(key);
        if (it == memo.end()) {
            it = memo.emplace(key, view_model()).first;
        }
        auto const& v    = it->second;
        auto const image = widget<juce::ImageComponent>([&](juce::ImageComponent& i) { return i.image.getHeight() == int(v.bins); }, "spectrum image").image;
        mc::require(image.getWidth() == int(v.frames), "the spectrum image shows %d frames instead of %zu", image.getWidth(), v.frames);
        for (std::size_t f = 0; f < v.frames; ++f) {
            for (std::size_t k = 0; k < v.bins; ++k) {
                auto const black = image.getPixelAt(int(f), int(v.bins - 1 - k)) == juce::Colours::black;
                mc::require(v.pixel[f * v.bins + k] < 0 || int(black) == v.pixel[f * v.bins + k], "frame %zu bin %zu is %s at a range of %g dB", f, k, black ? "shown" : "not shown", double(now.range));
            }
        }
        auto const hist = widget<juce::ImageComponent>([&](juce::ImageComponent& i) { return i.image.isValid() && i.image.getHeight() != int(v.bins); }, "histogram image").image;
        mc::require(hist.getWidth() == v.width && hist.getHeight() == v.height, "size of the histogram");
        auto const bars = heights(hist);
        int differ      = 0;
        for (std::size_t i = 0; i < bars.size(); ++i) {
            differ += bars[i] != v.bars[i];
        }
        mc::require(differ <= 6, "the histogram differs in %d bars", differ);
        if (v.tail && announced + value_msgs == 0) {
            // the last percentage in the text: how much of the response after its first 512 samples is above the range
            auto const& t = text().text;
            auto const at = t.rfind('%');
            mc::require(at != std::string::npos, "the text names no share");
            auto from = at;
            while (from > 0 && (std::isdigit(static_cast<unsigned char>(t[from - 1])) != 0 || t[from - 1] == '.' || t[from - 1] == '-')) {
                --from;
            }
            auto const got = std::strtod(t.c_str() + from, nullptr);
            mc::require(got >= v.share_low - 0.02 && got <= v.share_high + 0.02, "the text claims %g%%, but %g%% of the coefficients are above %g dB", got, v.share_low, -double(now.range));
        }
    }
    bool views{true};
};

void disk()
{
    juce::Disk::get() = {};
    generation()      = 0;
    store("/in/tail.wav", content(2, 700, 1), 48000);
    store("/in/short.wav", content(1, 300, 2), 44100);
    store("/in/broken.wav", content(2, 700, 3), 48000, false);
    store("/in/song.wav", content(2, 90, 4), 48000);
    store("/in/mono.wav", content(1, 40, 5), 44100);
    store("/in/noise.wav", content(2, 90, 6), 48000, false);
}

// --- every engine, every shape ------------------------------------------------------------------------
void shapes()
{
    for (std::size_t hl : {1, 300, 511, 512, 513, 4096, 4097}) {
        for (std::size_t xl : {1, 90, 4096, 4097, 9000}) {
            for (std::size_t hc : {1, 2}) {
                for (std::size_t xc : {1, 2}) {
                    if (!mc::thorough() && hc != xc && !(hl == 300 || hl == 4097)) {
                        continue;
                    }
                    mc::check("shapes", {long(hl), long(xl), long(hc), long(xc)}, [&] {
                        juce::Disk::get() = {};
                        generation() += 1;
                        store("/h.wav", content(hc, hl, int(hl)), 48000);
                        store("/x.wav", content(xc, xl, int(xl)), 48000);
                        world w;
                        w.prepare(48000, 64);
                        w.open();
                        w.dialog(false, "/x.wav");
                        w.dialog(true, "/h.wav");
                        w.choose({0, 1, 2, 3, 4, 5, 6, 7, 8});
                        w.set_bins(3);
                        w.set_range(40);
                        w.render();
                        while (!w.pending.empty()) {
                            w.work();
                            mc::states(1);
                        }
                        w.deliver();
                        mc::trace();
                    });
                }
            }
        }
    }
    // hosts of every kind; block sizes that are no powers of two
    for (double rate : {48000.0, 24000.0, 44100.0}) {
        for (int block : {2, 3, 32, 100, 512}) {
            mc::check("hosts", {long(rate), block}, [&] {
                disk();
                world w;
                w.prepare(rate, block);
                w.open();
                w.dialog(true, "/in/tail.wav");
                w.dialog(false, "/in/mono.wav");
                for (auto const* x : {"/in/mono.wav", "/in/song.wav"}) {
                    for (auto const* h : {"/in/tail.wav", "/in/short.wav"}) {
                        w.dialog(true, h);
                        w.dialog(false, x);
                        w.choose({0, 1, 2, 3, 4, 5, 6, 7, 8});
                        w.render();
                        while (!w.pending.empty()) {
                            w.work();
                            mc::states(1);
                        }
                        w.deliver();
                        mc::trace();
                    }
                }
            });
        }
    }
    // every combination of engines is rendered once each, in order
    for (unsigned half = 0; half < 8; ++half) {
        mc::check("choices", {long(half)}, [&] {
            disk();
            for (unsigned m = half * 64; m < half * 64 + 64; ++m) {
                world w;
                w.views = false;
                w.open();
                w.dialog(true, "/in/short.wav");
                w.dialog(false, "/in/mono.wav");
                std::vector<int> e;
                for (int i = 0; i < e_count; ++i) {
                    if (bit(m, std::size_t(i))) {
                        e.push_back(i);
                    }
                }
                w.choose(e);
                w.render();
                while (!w.pending.empty() && (m % 7 == 0 || w.pending.size() == e.size())) {
                    w.work();
                }
                mc::trace();
                mc::states(1);
            }
        });
    }
}

// --- words --------------------------------------------------------------------------------------------
void words()
{
    constexpr int letters = 17;
    auto const depth      = mc::thorough() ? 4 : 3;
    auto const event      = [](world& w, int a) {
        if (w.editor == nullptr && !(a == 0 || a == 9 || a == 10 || a == 15)) {
            return;
        }
        switch (a) {
        case 0: w.open(); break;
        case 1: w.dialog(true, "/in/tail.wav"); break;
        case 2: w.dialog(true, "/in/short.wav"); break;
        case 3: w.dialog(true, "/in/broken.wav"); break;
        case 4: w.dialog(true, std::nullopt); break;
        case 5: w.dialog(false, "/in/song.wav"); break;
        case 6: w.dialog(false, "/in/noise.wav"); break;
        case 7: w.dialog(false, std::nullopt); break;
        case 8: w.dialog(true, "/in/nowhere.wav"); break;
        case 9: w.prepare(24000, 16); break;
        case 10: w.prepare(48000, 8); break;
        case 11: w.set_range(30); break;
        case 12: w.set_weighting(false); break;
        case 13: w.render(); break;
        case 14: w.work(); break;
        case 15: w.deliver(); break;
        case 16: w.close(); break;
        }
    };
    long n = 1;
    for (int i = 1; i < depth; ++i) {
        n *= letters;
    }
    for (int start = 0; start < 2; ++start) {
        for (int first = 0; first < letters; ++first) {
            for (long block = 0; block < n; block += 34) {
                mc::check("words", {start, first, block}, [&] {
                    disk();
                    for (auto v = block; v < std::min(n, block + 34); ++v) {
                        world w;
                        w.open();
                        w.choose({3});
                        w.dialog(false, "/in/mono.wav");
                        if (start == 1) {
                            w.dialog(true, "/in/tail.wav");
                            w.render();
                        }
                        auto r = v;
                        for (int i = 0; i < depth; ++i) {
                            event(w, i == 0 ? first : int(r % letters));
                            r = i == 0 ? r : r / letters;
                            mc::transition();
                        }
                        if (w.editor != nullptr) {
                            w.deliver();
                            w.choose({4});
                            w.render();
                            while (!w.pending.empty()) {
                                w.work();
                            }
                        }
                        w.close();
                        w.deliver();
                        mc::trace();
                        mc::states(1);
                    }
                });
            }
        }
    }
}

void deep_words()
{
    constexpr int letters = 7;
    auto const depth      = mc::thorough() ? 6 : 4;
    long n                = 1;
    for (int i = 1; i < depth; ++i) {
        n *= letters;
    }
    for (int first = 0; first < letters; ++first) {
        for (long block = 0; block < n; block += 49) {
            mc::check("deep-words", {first, block}, [&] {
                disk();
                for (auto v = block; v < std::min(n, block + 49); ++v) {
                    world w;
                    w.views      = false;
                    auto restart = [&] {
                        w.open();
                        w.choose({7});
                        w.dialog(false, "/in/song.wav");
                        w.dialog(true, "/in/short.wav");
                    };
                    restart();
                    auto r = v;
                    for (int i = 0; i < depth; ++i) {
                        auto const a = i == 0 ? first : int(r % letters);
                        r            = i == 0 ? r : r / letters;
                        switch (a) {
                        case 0: w.render(); break;
                        case 1: w.work(); break;
                        case 2: w.deliver(); break;
                        case 3:
                            w.close();
                            restart();
                            break;
                        case 4: w.dialog(true, w.now.impulse_file == "/in/short.wav" ? "/in/tail.wav" : "/in/short.wav"); break;
                        case 5: w.prepare(w.now.spec.sampleRate == 24000 ? 48000 : 24000, 16); break;
                        case 6: w.dialog(false, w.now.signal_file == "/in/song.wav" ? "/in/mono.wav" : "/in/song.wav"); break;
                        }
                        mc::transition();
                    }
                    w.close();
                    w.deliver();
                    mc::trace();
                    mc::states(1);
                }
            });
        }
    }
}

// --- schedules: the job is preempted --------------------------------------------------------------------
constexpr int preemptions = 7;
void preempt(world& w, int e)
{
    switch (e) {
    case 0: w.dialog(true, w.now.impulse_file == "/in/short.wav" ? "/in/tail.wav" : "/in/short.wav"); break;
    case 1: w.dialog(false, w.now.signal_file == "/in/song.wav" ? "/in/mono.wav" : "/in/song.wav"); break;
    case 2: w.prepare(w.now.spec.sampleRate == 24000 ? 48000 : 24000, 16); break;
    case 3: w.set_range(20), w.set_bins(2); break;
    case 4: w.click("Render"); break;
    case 5: w.dialog(false, "/in/noise.wav"); break;
    case 6: w.dialog(true, "/in/broken.wav"); break;
    }
}

/// runs one rendering with event a at its i-th yield point and b at its j-th; true if both were reached
auto schedule(int engine, int a, long i, int b, long j) -> bool
{
    world w;
    w.views = false;
    w.open();
    w.choose({engine});
    w.dialog(false, "/in/song.wav");
    w.dialog(true, "/in/tail.wav");
    w.render();
    auto const r = w.pending.front();
    long at      = 0;
    bool inside  = false;
    juce::scheduler = [&] {
        if (inside) {
            return;
        }
        inside = true;
        for (auto const& [e, point] : {std::pair{a, i}, std::pair{b, j}}) {
            if (at == point && e >= 0) {
                preempt(w, e);
                mc::transition();
            }
        }
        ++at;
        inside = false;
    };
    struct off
    {
        ~off() { juce::scheduler = nullptr; }
    } const guard;
    auto& pool = *juce::ThreadPool::living().back();
    auto job   = std::move(pool.jobs.front());
    pool.jobs.pop_front();
    w.pending.clear();
    job();
    juce::scheduler = nullptr;
    auto const extra = pool.jobs.size();
    mc::require(extra <= 2, "%zu renderings were added", extra);
    pool.jobs.clear();
    // the files and settings of the request, or those of the end, but never a mixture
    w.check_written(r);
    mc::trace();
    mc::states(1);
    return at > std::max(i, j);
}

void schedules()
{
    for (int engine = 0; engine < e_count; ++engine) {
        for (int e = 0; e < preemptions; ++e) {
            mc::check("schedules", {engine, e}, [&] {
                disk();
                for (long i = 0; schedule(engine, e, i, -1, -1); ++i) {}
            });
        }
    }
    if (!mc::thorough()) {
        return;
    }
    for (int engine : {1, 2, 3, 8}) {
        for (int e = 0; e < 3; ++e) {
            mc::check("schedules2", {engine, e}, [&] {
                disk();
                // the second event takes back what the first did
                for (long i = 0; schedule(engine, e, i, -1, -1); ++i) {
                    for (long j = i + 1; schedule(engine, e, i, e, j); ++j) {}
                }
            });
        }
    }
}

/// renderings that overlap, if the pool has the threads for it: each runs as a whole at each yield point of the other
auto overlap(int a, int b, long i) -> bool
{
    world w;
    w.views = false;
    w.open();
    w.choose({std::min(a, b), std::max(a, b)});
    w.dialog(false, "/in/song.wav");
    w.dialog(true, "/in/tail.wav");
    w.render();
    auto& pool = *juce::ThreadPool::living().back();
    if (pool.threads < 2) {
        return false;
    }
    auto const waiting = w.pending;
    auto jobs          = std::move(pool.jobs);
    pool.jobs.clear();
    w.pending.clear();
    if (a > b) {
        std::swap(jobs.front(), jobs.back());
    }
    long at         = 0;
    juce::scheduler = [&] {
        if (at++ == i) {
            auto const step = juce::Atomic{};
            jobs.back()();
            mc::transition();
        }
    };
    jobs.front()();
    juce::scheduler = nullptr;
    if (at <= i) {
        return false;
    }
    mc::require(juce::Disk::get().written.size() == 2, "two renderings at the same time wrote %zu files", juce::Disk::get().written.size());
    for (auto const& r : waiting) {
        bool found = false;
        for (auto const& [path, f] : juce::Disk::get().written) {
            mc::require(f->opened == 1 && f->alive == 0, "%s was opened %d times", path.c_str(), f->opened);
            found = found || matches(*f, rendering(r.engine, r.requested)).empty();
        }
        mc::require(found, "two renderings at the same time: none of the files is that of %s", engines[r.engine]);
    }
    mc::trace();
    mc::states(1);
    return true;
}

void overlaps()
{
    for (int a = 0; a < e_count; ++a) {
        mc::check("overlaps", {a}, [&] {
            disk();
            for (int b = 0; b < e_count; ++b) {
                for (long i = 0; a != b && overlap(a, b, i); ++i) {}
            }
            mc::states(1);
        });
    }
}

void quality()
{
    for (int v = 0; v < 2; ++v) {
        mc::check("quality", {v}, [&] {
            disk();
            world w;
            w.views = false;
            w.prepare(48000, 32);
            w.open();
            w.dialog(true, v == 0 ? "/in/tail.wav" : "/in/short.wav");
            w.dialog(false, v == 0 ? "/in/song.wav" : "/in/mono.wav");
            w.set_bins(v == 0 ? 0 : 4);
            w.deliver();
            w.setting("STF Size").setValue(juce::var{v == 0 ? 512 : 1024});
            w.setting("Engine").setValue(juce::var{juce::Array<juce::var>{juce::var{"sparse_quality_tests"}}});
            w.click("Render");
            auto& pool = *juce::ThreadPool::living().back();
            mc::require(pool.jobs.size() == 1, "one job");
            auto job = std::move(pool.jobs.front());
            pool.jobs.pop_front();
            job();
            mc::require(juce::Disk::get().written.empty(), "the quality test writes no files");
            auto& q = juce::MessageManager::queue();
            while (!q.empty()) {
                auto m = std::move(q.front());
                q.pop_front();
                m();
            }
            auto const x = at_rate(w.now.signal_file, 48000), h = at_rate(w.now.impulse_file, 48000);
            auto dense = neo::to_mdarray(neo::dense_convolve<neo::convolution::upola_convolver<std::complex<float>>>(x, h, 4096));
            neo::normalize_peak(dense.to_mdspan());
            auto const size = std::size_t(v == 0 ? 512 : 1024);
            auto plan       = neo::fft::stft_plan<double>{{.frame_size = size, .transform_size = 2 * size, .overlap_size = size / 2}};
            auto const ref  = plan(dense.to_mdspan());
            auto t          = w.text().text;
            auto pos        = std::size_t(0);
            for (int i = 180; i > 0; --i) {
                auto const range = 1.0 + 89.0 * (i - 1) / 179;
                auto sparse      = neo::to_mdarray(neo::sparse_convolve(x, h, 4096, 48000, -float(range), w.now.bins));
                neo::normalize_peak(sparse.to_mdspan());
                auto const got = plan(sparse.to_mdspan());
                double rmse    = 0;
                for (std::size_t c = 0; c < ref.extent(0); ++c) {
                    double sum = 0;
                    for (std::size_t f = 0; f < ref.extent(1); ++f) {
                        for (std::size_t k = 0; k < ref.extent(2); ++k) {
                            auto const d = std::abs(ref(c, f, k)) - std::abs(got(c, f, k));  // of the magnitudes, see C16
                            sum += d * d;
                        }
                    }
                    rmse = std::max(rmse, std::sqrt(sum / double(ref.extent(1) * ref.extent(2))));
                }
                pos = t.find("SPARSE-QUALITY(", pos);
                mc::require(pos != std::string::npos, "no line for a range of %g dB", range);
                pos += 15;
                auto const said = std::strtod(t.c_str() + pos, nullptr);
                auto const eq   = t.find("rmse = ", pos);
                mc::require(eq != std::string::npos, "no error for a range of %g dB", range);
                auto const err = std::strtod(t.c_str() + eq + 7, nullptr);
                mc::require(std::abs(said - range) < 1e-3, "range %g instead of %g", said, range);
                mc::require(std::abs(err - rmse) <= 1e-4 * (1 + rmse), "range %g: error %g instead of %g", range, err, rmse);
                mc::trace();
            }
            mc::require(t.find("Done", pos) != std::string::npos && t.find("SPARSE-QUALITY(", pos) == std::string::npos, "the end of the quality test is not announced");
            mc::states(1);
        });
    }
}

void run()
{
#if MC_PART == 0
    shapes();
#elif MC_PART == 1
    words();
#elif MC_PART == 2
    deep_words();
    quality();
#else
    schedules();
    overlaps();
#endif
}

}  // namespace

MC_MAIN(run)
