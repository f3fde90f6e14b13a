// MC-TITLE: The plugin follows its host: gains, mix, saved state, buses, settings
// MC-TECH: all words over {process, parameter changes, prepare, release, save, restore, timer, listeners, editor} on the real processor in a stand-in host, compared after every step with a sample-exact model
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 3
// MC-INCLUDE: repo:extra/plugin/src verif:stubs/juce
// MC-BOUNDS: Sound: block sizes 2..9 and 16, mono and stereo, no impulse response or one of 1..2 channels and up to two frames, every combination of 5 input gains, 6 mixes and 5 output gains; all words of length 4 (thorough 5) over {four buffer sizes, changes of each parameter, prepare, prepare with another size, rate and width, release, restore}. State: all words of length 4 (thorough 5) over {three values of each parameter, timer, save to two slots, restore from them, into a new instance, from empty, cut and foreign data}. Listeners and editor: all words of length 5 (thorough 6) over {add and remove two listeners, one that removes itself, prepare twice, open and close the editor}. Buses: every pair of seven channel sets.
// MC-ASSUME: JUCE is replaced by a stand-in (stubs/juce) whose dry/wet mixer changes its gains at once instead of fading for 50 ms; buffers are no larger than announced; block size at least two.
#include "convcommon.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/DenseConvolution.cpp"
#include "dsp/Spectrum.cpp"

#include "PerceptualConvolution.cpp"
#include "PluginParameter.cpp"

#include "ui/BenchmarkTab.cpp"
#include "ui/ParameterTab.cpp"

#include "PluginEditor.cpp"
#include "PluginProcessor.cpp"

using namespace cc;

namespace {

using matrix2 = std::vector<rvec>;  // [channel][sample]

auto response(std::size_t channels, std::size_t len, int salt) -> matrix2
{
    matrix2 h;
    for (std::size_t c = 0; c < channels; ++c) {
        auto x = dense(len, salt + int(c) * 3);
        x[0] += 1;
        x[len - 1] -= real(c + 1) / 4;
        h.push_back(x);
    }
    return h;
}

auto normalised(matrix2 h) -> matrix2
{
    real e = 0;
    for (auto const& x : h) {
        e = std::max(e, l2(x));
    }
    for (auto& x : h) {
        for (auto& v : x) {
            v = e == 0 ? v : v / e;
        }
    }
    return h;
}

/// what is on the disk of the machine the plugin runs on
void insert_disk(matrix2 const& m, double rate)
{
    juce::Disk::get() = {};
    if (!m.empty()) {
        auto s     = std::make_shared<juce::InputStream>();
        s->samples = juce::AudioBuffer<float>{int(m.size()), int(m[0].size())};
        for (std::size_t c = 0; c < m.size(); ++c) {
            for (std::size_t i = 0; i < m[c].size(); ++i) {
                s->samples.setSample(int(c), int(i), float(m[c][i]));
            }
        }
        s->sampleRate              = rate;
        juce::Disk::get().anything = s;
    }
}

auto sig(std::size_t c, std::size_t i) -> real { return real(long((i * 23 + c * 7 + (i / 5) * 3) % 41) - 20) / 16; }

auto layout(juce::AudioChannelSet in, juce::AudioChannelSet out) -> juce::AudioProcessor::BusesLayout { return {{in}, {out}}; }

enum { p_in, p_wet, p_out };
constexpr char const* ids[] = {neo::ParamID::inGain, neo::ParamID::wet, neo::ParamID::outGain};

struct host
{
    std::unique_ptr<juce::AudioProcessor> owner{createPluginFilter()};
    std::size_t channels{2}, block{0}, frame{0};
    double rate{0};
    bool prepared{false};
    std::size_t t{0};
    real value[3] = {1, 1, 1};
    matrix2 disk;       // the impulse response, if any
    double disk_rate{48000};
    matrix2 h;          // per channel, normalised
    std::vector<rvec> pending, history, out;
    std::size_t consumed{0};
    juce::MemoryBlock slot[2];
    std::optional<std::array<real, 3>> saved[2];

    [[nodiscard]] auto processor() const -> neo::PluginProcessor& { return dynamic_cast<neo::PluginProcessor&>(*owner); }
    [[nodiscard]] auto parameter(int p) const -> juce::AudioParameterFloat&
    {
        auto* f = neo::getFloatParameter(processor().getState(), ids[p]);
        mc::require(f != nullptr, "there is no parameter %s", ids[p]);
        return *f;
    }

    void check_parameters(char const* after)
    {
        for (int p = 0; p < 3; ++p) {
            auto const got = real(parameter(p).get());
            mc::require(std::abs(got - value[p]) <= 1e-5L * (1 + std::abs(value[p])), "after %s parameter %s is %Lg, expected %Lg", after, ids[p], got, value[p]);
        }
    }
    void set(int p, float v)
    {
        parameter(p) = v;
        value[p]     = v;
        check_parameters("setting a parameter");
        value[p] = parameter(p).get();
        mc::transition();
    }
    void start_stream()
    {
        pending.assign(channels, {});
        out.assign(channels, rvec(frame - 1, 0.0L));
        history.assign(channels, {});
        consumed = 0;
    }
    void prepare(std::size_t b, std::size_t ch, double sr)
    {
        if (ch != channels) {
            auto const s = ch == 1 ? juce::AudioChannelSet::mono() : juce::AudioChannelSet::stereo();
            mc::require(owner->setBusesLayout(layout(s, s)), "a bus of %zu channels is refused", ch);
        }
        block    = b;
        channels = ch;
        rate     = sr;
        frame    = 1;
        while (frame < b) {
            frame *= 2;
        }
        prepared = true;
        auto ir  = normalised(disk);
        h.clear();
        for (std::size_t c = 0; c < channels; ++c) {
            h.push_back(ir.empty() ? basis(1, 0) : ir[std::min(c, ir.size() - 1)]);
        }
        owner->setRateAndBufferSizeDetails(sr, int(b));
        owner->prepareToPlay(sr, int(b));
        start_stream();
        auto const spec = processor().getProcessSpec();
        mc::require(spec.sampleRate == sr && spec.maximumBlockSize == b && spec.numChannels == ch, "the processor reports another setup than it was prepared with");
        mc::transition();
    }
    void release()
    {
        owner->releaseResources();
        if (prepared) {
            start_stream();
        }
        mc::transition();
    }
    void push(std::size_t c, real v)
    {
        pending[c].push_back(v);
        if (pending[c].size() == frame) {
            auto& x = history[c];
            x.insert(x.end(), pending[c].begin(), pending[c].end());
            pending[c].clear();
            for (std::size_t n = x.size() - frame; n < x.size(); ++n) {
                real y = 0;
                for (std::size_t k = 0; k < h[c].size() && k <= n; ++k) {
                    y += h[c][k] * x[n - k];
                }
                out[c].push_back(y);
            }
        }
    }
    void process(std::size_t n)
    {
        juce::AudioBuffer<float> b{int(channels), int(n)};
        matrix2 dry(channels, rvec(n));
        auto const w        = value[p_wet];
        auto const dry_gain = 2 * std::min(0.5L, 1 - w), wet_gain = 2 * std::min(0.5L, w);
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                b.setSample(int(c), int(i), float(sig(c, t + i)));
                dry[c][i] = value[p_in] * sig(c, t + i);
                if (prepared) {
                    push(c, dry[c][i]);
                }
            }
        }
        t += n;
        auto const misuse = juce::dsp::DryWetMixer<float>::misuse;
        auto midi         = juce::MidiBuffer{};
        owner->processBlock(b, midi);
        mc::require(juce::dsp::DryWetMixer<float>::misuse == misuse, "the dry/wet mixer is used against its contract");
        for (std::size_t c = 0; c < channels; ++c) {
            real norm = 1;
            if (prepared) {
                for (auto v : history[c]) {
                    norm += v * v;
                }
                norm = std::sqrt(norm) * (1 + l2(h[c]));
            }
            auto const tol = eps<float>() * 200 * (norm + 8) * std::max(value[p_out], 1e-3L);
            for (std::size_t i = 0; i < n; ++i) {
                auto const want = value[p_out] * (prepared ? dry_gain * dry[c][i] + wet_gain * out[c][consumed + i] : dry[c][i]);
                auto const got  = real(b.getSample(int(c), int(i)));
                mc::require(std::abs(got - want) <= tol, "block size %zu, gains %Lg and %Lg, mix %Lg: output sample %zu of channel %zu is %Lg, expected %Lg", block, value[p_in], value[p_out], w, consumed + i, c, got, want);
            }
        }
        consumed += n;
        mc::transition();
    }
    void save(int s)
    {
        owner->getStateInformation(slot[s]);  // the host may hand in a block that still holds something
        saved[s] = {value[0], value[1], value[2]};
        mc::transition();
    }
    void restore(int s)
    {
        if (!saved[s]) {
            return;
        }
        owner->setStateInformation(slot[s].getData(), int(slot[s].getSize()));
        for (int p = 0; p < 3; ++p) {
            value[p] = (*saved[s])[std::size_t(p)];
        }
        check_parameters("restoring");
        for (int p = 0; p < 3; ++p) {
            value[p] = parameter(p).get();
        }
        mc::transition();
    }
    void restore_bad(int kind)
    {
        auto const good = slot[0].bytes;
        auto const cut  = std::vector<char>(good.begin(), good.begin() + long(good.size() / 2));
        auto const junk = std::vector<char>{'\x7f', 'E', 'L', 'F', 0, 0, 1};
        auto const& d   = kind == 0 ? std::vector<char>{} : kind == 1 ? cut : junk;
        owner->setStateInformation(d.empty() ? nullptr : d.data(), int(d.size()));
        check_parameters("data that is no state");
        mc::transition();
    }
};

constexpr float gains[] = {0.0F, 0.25F, 1.0F, 2.5F, 4.0F};
constexpr float mixes[] = {0.0F, 0.25F, 0.5F, 0.6F, 0.875F, 1.0F};

void sound_grid()
{
    for (std::size_t B : {2, 3, 4, 5, 6, 7, 8, 9, 16}) {
        for (std::size_t ch : {1, 2}) {
            for (int ir = 0; ir < 4; ++ir) {
                mc::check("grid", {long(B), long(ch), ir}, [&] {
                    std::size_t frame = 1;
                    while (frame < B) {
                        frame *= 2;
                    }
                    auto const len = ir == 1 ? std::size_t(3) : ir == 2 ? frame : 2 * frame - 1;
                    auto const m   = ir == 0 ? matrix2{} : response(ir == 2 ? 1 : 2, len, ir);
                    insert_disk(m, 48000);
                    for (auto in : gains) {
                        for (auto wet : mixes) {
                            for (auto out : gains) {
                                host s;
                                s.disk = m;
                                s.set(p_in, in);
                                s.prepare(B, ch, 48000);
                                s.set(p_wet, wet);
                                s.set(p_out, out);
                                for (std::size_t r = 0; s.consumed < 3 * frame + 1; ++r) {
                                    s.process(r % 3 == 1 ? B / 2 : B);
                                }
                                mc::trace();
                            }
                        }
                    }
                    mc::sample("block %zu, %zu channels, response %d: 150 settings", B, ch, ir);
                });
            }
        }
    }
    mc::check("before prepare", {}, [] {
        insert_disk({}, 0);
        for (auto in : gains) {
            for (auto out : gains) {
                host s;
                s.set(p_in, in);
                s.set(p_out, out);
                s.process(7);
                s.release();
                s.process(1);
                s.process(0);
                s.prepare(4, 2, 48000);
                s.process(4);
                mc::trace();
            }
        }
    });
}

void sound_words()
{
    static constexpr int letters = 14;
    auto const depth = mc::thorough() ? 5 : 4;
    for (std::size_t B : {3, 4}) {
        for (int ir = 0; ir < 2; ++ir) {
            for (int first = 0; first < letters; ++first) {
                mc::check("sound", {long(B), ir, first}, [&] {
                    auto const m = ir == 0 ? matrix2{} : response(2, 6, 1);
                    insert_disk(m, 48000);
                    auto total = 1;
                    for (int i = 1; i < depth; ++i) {
                        total *= letters;
                    }
                    for (int w = 0; w < total; ++w) {
                        host s;
                        s.disk = m;
                        s.prepare(B, 2, 48000);
                        s.save(0);
                        auto other = false;
                        auto r     = w;
                        for (int i = 0; i < depth; ++i) {
                            auto const a = i == 0 ? first : r % letters;
                            r            = i == 0 ? r : r / letters;
                            switch (a) {
                            case 0: s.process(0); break;
                            case 1: s.process(1); break;
                            case 2: s.process(s.block - 1); break;
                            case 3: s.process(s.block); break;
                            case 4: s.set(p_in, s.value[p_in] == 1 ? 2.0F : 1.0F); break;
                            case 5: s.set(p_wet, s.value[p_wet] == 1 ? 0.25F : 1.0F); break;
                            case 6: s.set(p_wet, 0.75F); break;
                            case 7: s.set(p_out, s.value[p_out] == 1 ? 0.5F : 1.0F); break;
                            case 8: s.prepare(s.block, s.channels, s.rate); break;
                            case 9:
                                other = !other;
                                s.prepare(other ? 2 * B + 1 : B, other ? 1 : 2, 48000);
                                break;
                            case 10: s.release(); break;
                            case 11: s.restore(0); break;
                            case 12: s.set(p_wet, 0.0F); break;
                            case 13: s.set(p_in, 0.0F); break;
                            }
                            auto const key = mc::hasher{}.add(a).add(int(s.consumed)).add(float(s.value[0])).add(float(s.value[1])).add(float(s.value[2])).h; mc::state(key); mc::outcome(key);
                        }
                        for (std::size_t i = 0; i < 2; ++i) {
                            s.process(s.block);
                            s.process(1);
                            s.process(s.block);
                        }
                        mc::trace();
                    }
                });
            }
        }
    }
}

void state_words()
{
    static constexpr int letters = 18;
    auto const depth = mc::thorough() ? 5 : 4;
    for (int first = 0; first < letters; ++first) {
        mc::check("state", {first}, [&] {
            insert_disk({}, 0);
            auto total = 1;
            for (int i = 1; i < depth; ++i) {
                total *= letters;
            }
            for (int w = 0; w < total; ++w) {
                host s;
                auto r = w;
                std::string word;
                for (int i = 0; i < depth; ++i) {
                    auto const a = i == 0 ? first : r % letters;
                    r            = i == 0 ? r : r / letters;
                    if (a < 9) {
                        static constexpr float v[3][3] = {{0.0F, 0.75F, 4.0F}, {0.0F, 0.3F, 0.9F}, {0.125F, 1.5F, 3.9F}};
                        s.set(a / 3, v[a / 3][a % 3]);
                    } else {
                        switch (a) {
                        case 9: s.processor().getState().timerCallback(); break;
                        case 10: s.save(0); break;
                        case 11: s.save(1); break;
                        case 12: s.restore(0); break;
                        case 13: s.restore(1); break;
                        case 14: {
                            // the session is opened again
                            s.save(0);
                            s.owner.reset(createPluginFilter());
                            s.value[0] = s.value[1] = s.value[2] = 1;
                            s.check_parameters("construction");
                            s.restore(0);
                            break;
                        }
                        case 15: s.restore_bad(0); break;
                        case 16: s.restore_bad(1); break;
                        case 17: s.restore_bad(2); break;
                        }
                    }
                    s.check_parameters("a step");
                }
                s.restore(0);
                s.restore(1);
                s.set(p_wet, 0.4F);
                s.save(0);
                s.owner.reset(createPluginFilter());
                s.restore(0);
                s.process(3);
                mc::trace();
            }
        });
    }
}

struct probe : neo::ProcessSpecListener
{
    std::vector<juce::dsp::ProcessSpec> heard;
    std::function<void()> then;
    void processSpecChanged(juce::dsp::ProcessSpec const& s) override
    {
        heard.push_back(s);
        if (then) {
            then();
        }
    }
};

auto shows(juce::AudioProcessorEditor const& e, std::string const& text) -> bool
{
    return std::any_of(e.children.begin(), e.children.end(), [&](juce::Component* c) {
        auto const* l = dynamic_cast<juce::Label*>(c);
        if (l == nullptr) {
            return false;
        }
        auto const at = l->text.rfind(text);
        return at != std::string::npos && at + text.size() == l->text.size() && (at == 0 || !std::isdigit(static_cast<unsigned char>(l->text[at - 1])));
    });
}

void listener_words()
{
    static constexpr int letters = 9;
    auto const depth = mc::thorough() ? 6 : 5;
    for (int first = 0; first < letters; ++first) {
        mc::check("listeners", {first}, [&] {
            insert_disk({}, 0);
            auto total = 1;
            for (int i = 1; i < depth; ++i) {
                total *= letters;
            }
            for (int w = 0; w < total; ++w) {
                host s;
                auto& p = s.processor();
                mc::require(p.getProcessSpec().sampleRate > 0 && p.getProcessSpec().numChannels == 2, "an unprepared processor reports an unusable setup");
                probe l[3];
                bool on[3] = {};
                std::vector<int> expect[3];
                std::unique_ptr<juce::AudioProcessorEditor> editor;
                l[2].then = [&] { p.removeProcessSpecListener(&l[2]); };
                auto r    = w;
                for (int i = 0; i < depth; ++i) {
                    auto const a = i == 0 ? first : r % letters;
                    r            = i == 0 ? r : r / letters;
                    switch (a) {
                    case 0:
                    case 1:
                    case 2: p.addProcessSpecListener(&l[a]), on[a] = true; break;
                    case 3:
                    case 4: p.removeProcessSpecListener(&l[a - 3]), on[a - 3] = false; break;
                    case 5:
                    case 6: {
                        auto const b = a == 5 ? 8 : 5;
                        for (int k = 0; k < 3; ++k) {
                            if (on[k]) {
                                expect[k].push_back(b);
                            }
                        }
                        on[2] = false;
                        s.prepare(std::size_t(b), a == 5 ? 2 : 1, a == 5 ? 48000 : 44100);
                        break;
                    }
                    case 7:
                        if (editor == nullptr) {
                            mc::require(p.hasEditor(), "the processor denies having an editor");
                            editor.reset(p.createEditor());
                            mc::require(editor != nullptr, "there is no editor");
                        }
                        break;
                    case 8: editor.reset(); break;
                    }
                    if (s.prepared) {
                        s.process(s.block);
                    }
                    for (int k = 0; k < 3; ++k) {
                        mc::require(l[k].heard.size() == expect[k].size(), "listener %d heard %zu changes instead of %zu", k, l[k].heard.size(), expect[k].size());
                        for (std::size_t c = 0; c < expect[k].size(); ++c) {
                            auto const b = expect[k][c];
                            mc::require(l[k].heard[c].maximumBlockSize == juce::uint32(b) && l[k].heard[c].sampleRate == (b == 8 ? 48000 : 44100) && l[k].heard[c].numChannels == (b == 8 ? 2U : 1U), "listener %d was told another setup", k);
                        }
                    }
                    if (editor != nullptr) {
                        auto const spec = p.getProcessSpec();
                        mc::require(shows(*editor, juce::String{spec.sampleRate}) && shows(*editor, juce::String{spec.maximumBlockSize}) && shows(*editor, juce::String{spec.numChannels}), "the editor does not show the current setup");
                    }
                    mc::transition();
                }
                mc::require(juce::MessageManager::queue().empty(), "unexpected messages");
                mc::trace();
            }
        });
    }
}

void buses()
{
    using S            = juce::AudioChannelSet;
    S const sets[]     = {S::disabled(), S::mono(), S::stereo(), S::createLCR(), S::quadraphonic(), S::discreteChannels(1), S::discreteChannels(2)};
    for (int i = 0; i < 7; ++i) {
        for (int o = 0; o < 7; ++o) {
            mc::check("buses", {i, o}, [&] {
                insert_disk({}, 0);
                host s;
                auto const want = i == o && (i == 1 || i == 2);
                auto const l    = layout(sets[i], sets[o]);
                mc::require(s.owner->checkBusesLayoutSupported(l) == want, "layout %d -> %d is %s", i, o, want ? "refused" : "accepted");
                mc::require(s.owner->setBusesLayout(l) == want, "layout %d -> %d", i, o);
                mc::trace();
            });
        }
    }
    mc::check("identity", {}, [] {
        insert_disk({}, 0);
        host a, b;
        mc::require(a.owner->getNumPrograms() >= 1 && a.owner->getCurrentProgram() >= 0 && a.owner->getCurrentProgram() < a.owner->getNumPrograms(), "program list");
        mc::require(!a.owner->acceptsMidi() && !a.owner->producesMidi() && !a.owner->isMidiEffect(), "an audio effect must not ask for MIDI");
        mc::require(!a.owner->getName().empty(), "the plugin has no name");
        // two instances do not share anything
        a.prepare(4, 2, 48000);
        b.prepare(8, 1, 44100);
        for (int r = 0; r < 6; ++r) {
            a.set(r % 3, 0.5F);
            a.process(4);
            b.set((r + 1) % 3, 0.25F);
            b.process(8);
            a.check_parameters("the other instance");
            b.check_parameters("the other instance");
        }
        mc::trace();
    });
    // the whole range of every parameter is reachable and survives a session
    for (int p = 0; p < 3; ++p) {
        mc::check("range", {p}, [&] {
            insert_disk({}, 0);
            host s;
            for (int k = 0; k <= 64; ++k) {
                s.set(p, float(k) / 64 * (p == p_wet ? 1.0F : 4.0F));
                s.save(0);
                s.owner.reset(createPluginFilter());
                s.restore(0);
                mc::trace();
            }
        });
    }
}

void run()
{
#if MC_PART == 0
    sound_grid();
    buses();
#elif MC_PART == 1
    sound_words();
#else
    state_words();
    listener_words();
#endif
}

}  // namespace

MC_MAIN(run)
