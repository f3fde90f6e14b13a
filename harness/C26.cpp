// MC-TITLE: The plugin's frame adapter is transparent to the host's buffer sizes
// MC-TECH: every sequence of host buffer sizes (including empty ones) up to a depth, for every frame, hop and maximum buffer size, replayed on the real adapter and compared with the overlap-add of the frames of one long stream
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 1
// MC-INCLUDE: repo:extra/plugin/src verif:stubs/juce
// MC-BOUNDS: Frames 1, 2, 4, 8 with every hop frame/2^d >= 1 and every maximum buffer size 1..2*frame+3 (capped at 9): all words over buffer sizes 0..max of length 4 (5 for max <= 5; thorough one more), each padded until three frames have been emitted; frames 16..1024 with periodic schedules of every pair of 14 sizes around divisors and multiples of the frame; every point of a schedule as the point of a reset, a repeated prepare with the same or another buffer size, or both; one to three channels; in-place and separate output; identity, per-frame gain and time-reversing frame processors; float and double; schedules of all constant sizes 1..2*frame+1 up to frame 64.
// MC-ASSUME: JUCE is replaced by a stand-in (stubs/juce) that implements the documented behaviour of the buffer, block, window and vector functions the adapter calls, with uninitialised memory made visible; blocks larger than the announced maximum are outside the contract.
#include "model.hpp"

#include "dsp/ConstantOverlapAdd.hpp"

using namespace model;

namespace {

enum treatment { identity, gains, reversed };

template<typename F>
struct probe final : neo::ConstantOverlapAdd<F>
{
    treatment how;
    std::size_t channels{0};
    std::vector<std::vector<std::vector<F>>> seen;  // [frame][channel][sample]
    int resets{0};
    juce::dsp::ProcessSpec spec{};

    probe(int order, int divider, treatment t) : neo::ConstantOverlapAdd<F>{order, divider}, how(t) {}

    auto prepareFrame(juce::dsp::ProcessSpec const& s) -> void override { spec = s; }
    auto resetFrame() -> void override { ++resets; }
    auto processFrame(juce::dsp::ProcessContextReplacing<F> const& ctx) -> void override
    {
        auto in  = ctx.getInputBlock();
        auto out = ctx.getOutputBlock();
        std::vector<std::vector<F>> f;
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            f.emplace_back(in.getChannelPointer(c), in.getChannelPointer(c) + in.getNumSamples());
        }
        for (std::size_t c = 0; c < f.size(); ++c) {
            auto const y = treat(how, seen.size(), f[c]);
            std::copy(y.begin(), y.end(), out.getChannelPointer(c));
        }
        seen.push_back(std::move(f));
    }

    static auto treat(treatment how, std::size_t index, std::vector<F> x) -> std::vector<F>
    {
        if (how == gains) {
            for (auto& v : x) {
                v = v * F(1 + index % 5) + F(0.25);
            }
        } else if (how == reversed) {
            std::reverse(x.begin(), x.end());
        }
        return x;
    }
};

auto signal(std::size_t c, std::size_t i, long salt) -> real
{
    return real(long((i * 37 + c * 11 + std::size_t(salt) * 29 + (i / 7) * 5) % 61) - 30) / 4;
}

/// one stream of the adapter, checked against the overlap-add of its frames
template<typename F>
struct stream
{
    probe<F>& p;
    std::size_t frame, hop, channels;
    std::vector<real> const& window;
    long salt;
    std::size_t base;  // frames already seen by the probe when the stream started
    std::vector<std::vector<real>> in, out;

    stream(probe<F>& pr, std::size_t f, std::size_t h, std::size_t ch, std::vector<real> const& w, long s)
        : p(pr), frame(f), hop(h), channels(ch), window(w), salt(s), base(pr.seen.size()), in(ch), out(ch)
    {}

    void push(std::size_t n, bool in_place)
    {
        juce::AudioBuffer<F> src{int(channels), int(n)};
        juce::AudioBuffer<F> dst{int(channels), int(n)};
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                auto const v = signal(c, in[c].size(), salt);
                in[c].push_back(v);
                src.setSample(int(c), int(i), F(v));
            }
        }
        if (in_place) {
            auto block = juce::dsp::AudioBlock<F>{src};
            p.process(juce::dsp::ProcessContextReplacing<F>{block});
        } else {
            auto const copy = src;
            auto block      = juce::dsp::AudioBlock<F>{dst};
            auto input      = juce::dsp::AudioBlock<F const>{copy};
            p.process(juce::dsp::ProcessContextNonReplacing<F>{input, block});
            for (std::size_t c = 0; c < channels; ++c) {
                for (std::size_t i = 0; i < n; ++i) {
                    mc::require(copy.getSample(int(c), int(i)) == src.getSample(int(c), int(i)), "input sample changed");
                }
            }
        }
        auto const& res = in_place ? src : dst;
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                out[c].push_back(res.getSample(int(c), int(i)));
            }
        }
        mc::transition();
    }

    void verify()
    {
        auto const n      = channels != 0 ? in[0].size() : 0;
        auto const frames = n >= frame ? (n - frame) / hop + 1 : 0;
        mc::require(p.seen.size() - base == frames, "%zu frames were processed for %zu input samples (frame %zu hop %zu), expected %zu", p.seen.size() - base, n, frame, hop, frames);
        for (std::size_t c = 0; c < channels; ++c) {
            std::vector<real> y(n + 2 * frame, 0.0L);
            std::vector<real> mag(n + 2 * frame, 0.0L);
            for (std::size_t t = 0; t < frames; ++t) {
                std::vector<F> x(frame);
                for (std::size_t i = 0; i < frame; ++i) {
                    x[i] = F(in[c][t * hop + i] * window[i]);
                    auto const g = p.seen[base + t][c][i];
                    mc::require(std::abs(real(g) - real(x[i])) <= eps<F>() * 4 * std::abs(real(x[i])), "frame %zu channel %zu sample %zu is %g, the windowed input is %g (frame %zu hop %zu)", t, c, i, double(g), double(x[i]), frame, hop);
                }
                auto const f = probe<F>::treat(p.how, base + t, x);
                for (std::size_t i = 0; i < frame; ++i) {
                    if (frame - 1 + t * hop + i < y.size()) {
                        y[frame - 1 + t * hop + i] += real(f[i]);
                        mag[frame - 1 + t * hop + i] += std::abs(real(f[i])) + 1;
                    }
                }
            }
            for (std::size_t i = 0; i < n; ++i) {
                mc::require(std::abs(out[c][i] - y[i]) <= eps<F>() * 8 * mag[i], "output sample %zu of channel %zu is %Lg, expected %Lg (frame %zu hop %zu)", i, c, out[c][i], y[i], frame, hop);
            }
            if (p.how == identity) {
                // with frames passed through, the input comes back delayed by frame - 1 samples
                for (std::size_t i = frame - 1 + frame - hop; i < n; ++i) {
                    auto const want = in[c][i - (frame - 1)];
                    mc::require(std::abs(out[c][i] - want) <= eps<F>() * 16 * (std::abs(want) + 1), "a transparent frame processor turned input %Lg into output %Lg (frame %zu hop %zu)", want, out[c][i], frame, hop);
                }
            }
        }
        mc::trace();
    }
};

/// the analysis window of a configuration, observed on a constant signal; its overlapping copies add up to one
template<typename F>
auto measure(int order, int divider) -> std::vector<real>
{
    auto const frame = std::size_t(1) << order;
    auto const hop   = frame >> divider;
    auto p           = probe<F>{order, divider, identity};
    p.prepare({44100.0, juce::uint32(frame), 1});
    juce::AudioBuffer<F> b{1, int(frame)};
    for (std::size_t i = 0; i < frame; ++i) {
        b.setSample(0, int(i), F(1));
    }
    auto block = juce::dsp::AudioBlock<F>{b};
    p.process(juce::dsp::ProcessContextReplacing<F>{block});
    mc::require(p.seen.size() == 1 && p.seen[0].size() == 1 && p.seen[0][0].size() == frame, "one full frame of input did not produce one frame");
    mc::require(p.spec.maximumBlockSize == frame && p.spec.numChannels == 1 && p.spec.sampleRate == 44100.0, "prepareFrame was told %u samples, %u channels, %g Hz", p.spec.maximumBlockSize, p.spec.numChannels, p.spec.sampleRate);
    std::vector<real> w(p.seen[0][0].begin(), p.seen[0][0].end());
    for (std::size_t i = 0; i < hop; ++i) {
        real sum = 0;
        for (std::size_t k = i; k < frame; k += hop) {
            sum += w[k];
        }
        mc::require(std::abs(sum - 1) <= eps<F>() * 16, "the windows covering position %zu add up to %Lg instead of 1 (frame %zu hop %zu)", i, sum, frame, hop);
    }
    return w;
}

template<typename F>
void words(long id, int order, int divider, std::size_t maxb)
{
    auto const frame = std::size_t(1) << order;
    auto const hop   = frame >> divider;
    auto const w     = measure<F>(order, divider);
    auto const depth = (maxb <= 2 ? 7U : maxb <= 3 ? 6U : maxb <= 5 ? 5U : 4U) + (mc::thorough() ? 1U : 0U);
    std::uint64_t total = 1;
    for (unsigned i = 0; i < depth; ++i) {
        total *= maxb + 1;
    }
    for (std::uint64_t code = 0; code < total; ++code) {
        auto const how = treatment(code % 3);
        auto p         = probe<F>{order, divider, how};
        p.prepare({44100.0, juce::uint32(maxb), 1});
        auto s   = stream<F>{p, frame, hop, 1, w, long(code % 7)};
        auto rem = code;
        for (unsigned i = 0; i < depth; ++i) {
            s.push(rem % (maxb + 1), ((code + i) & 1U) != 0);
            rem /= maxb + 1;
        }
        // then full buffers, so that whatever is still inside comes out
        while (s.in[0].size() < 3 * frame + hop) {
            s.push(maxb, true);
        }
        s.verify();
        mc::states(1);
    }
    (void)id;
}

template<typename F>
void periodic(int order, int divider, std::size_t a, std::size_t b, std::size_t channels)
{
    auto const frame = std::size_t(1) << order;
    auto const hop   = frame >> divider;
    auto const w     = measure<F>(order, divider);
    for (int how = 0; how < 3; ++how) {
        auto p = probe<F>{order, divider, treatment(how)};
        p.prepare({48000.0, juce::uint32(std::max<std::size_t>(std::max(a, b), 1)), juce::uint32(channels)});
        auto s = stream<F>{p, frame, hop, channels, w, long(how)};
        std::size_t rounds = 0;
        while (s.in[0].size() < 4 * frame + 3 && rounds < 40000) {
            s.push(rounds % 2 == 0 ? a : b, (rounds & 2U) != 0);
            ++rounds;
        }
        s.verify();
        mc::states(1);
    }
}

/// words over {process n, reset, prepare same, prepare other}: each (re)start begins a fresh stream
template<typename F>
void histories(int order, int divider, std::size_t maxb)
{
    auto const frame = std::size_t(1) << order;
    auto const hop   = frame >> divider;
    auto const w     = measure<F>(order, divider);
    std::size_t const sizes[] = {1, maxb, frame <= maxb ? frame : maxb, (maxb + 1) / 2};
    unsigned const letters = 7;
    unsigned const depth   = mc::thorough() ? 6 : 5;
    std::uint64_t total    = 1;
    for (unsigned i = 0; i < depth; ++i) {
        total *= letters;
    }
    for (std::uint64_t code = 0; code < total; ++code) {
        auto p               = probe<F>{order, divider, treatment(code % 3)};
        std::size_t channels = 1;
        auto limit           = maxb;
        p.prepare({44100.0, juce::uint32(limit), juce::uint32(channels)});
        auto s   = std::make_unique<stream<F>>(p, frame, hop, channels, w, 0L);
        auto rem = code;
        long salt = 0;
        auto const restart = [&] {
            s->verify();
            s = std::make_unique<stream<F>>(p, frame, hop, channels, w, ++salt);
        };
        for (unsigned i = 0; i < depth; ++i) {
            auto const l = rem % letters;
            rem /= letters;
            if (l < 4) {
                s->push(std::min(sizes[l], limit), (i & 1U) != 0);
            } else if (l == 4) {
                auto const before = p.resets;
                p.reset();
                mc::require(p.resets == before + 1, "reset did not reach the frame processor");
                restart();
            } else if (l == 5) {
                p.prepare({44100.0, juce::uint32(limit), juce::uint32(channels)});
                restart();
            } else {
                limit    = limit == maxb ? maxb + 2 : maxb;
                channels = channels == 1 ? 2 : 1;
                p.prepare({48000.0, juce::uint32(limit), juce::uint32(channels)});
                restart();
            }
        }
        for (int i = 0; i < 3; ++i) {
            s->push(limit, true);
        }
        while (s->in[0].size() < 2 * frame + hop) {
            s->push(limit, false);
        }
        s->verify();
        mc::states(1);
    }
}

template<typename F>
void all(long type)
{
    for (int order = 0; order <= 3; ++order) {
        for (int divider = 0; divider <= order; ++divider) {
            auto const frame = std::size_t(1) << order;
            for (std::size_t maxb = 1; maxb <= std::min<std::size_t>(2 * frame + 3, mc::thorough() ? 12 : 9); ++maxb) {
                mc::check("schedules", {type, order, divider, long(maxb)}, [=] { words<F>(type, order, divider, maxb); });
            }
            for (std::size_t maxb : {std::size_t(1), std::size_t(2), std::size_t(3), frame, frame + 1, 2 * frame + 1}) {
                mc::check("histories", {type, order, divider, long(maxb)}, [=] { histories<F>(order, divider, maxb); });
            }
        }
    }
    for (int order = 0; order <= 6; ++order) {
        for (int divider = 0; divider <= order; ++divider) {
            mc::check("constant", {type, order, divider}, [=] {
                auto const frame = std::size_t(1) << order;
                for (std::size_t a = 1; a <= 2 * frame + 1; ++a) {
                    periodic<F>(order, divider, a, a, 1 + a % 3);
                }
            });
        }
    }
    for (int order = 4; order <= 10; order += (order < 6 || mc::thorough() ? 1 : 2)) {
        for (int divider = 0; divider <= (mc::thorough() ? order : std::min(order, 3)); ++divider) {
            auto const f = std::size_t(1) << order;
            std::size_t const sizes[] = {1, 3, f / 4, f / 4 + 1, f / 2 - 1, f / 2, f / 2 + 1, f - 1, f, f + 1, 2 * f - 1, 2 * f, 2 * f + 1, 5 * f + 3};
            for (auto a : sizes) {
                mc::check("pairs", {type, order, divider, long(a)}, [=] {
                    for (auto b : sizes) {
                        periodic<F>(order, divider, a, b, 1 + (a + b) % 2);
                    }
                    periodic<F>(order, divider, a, 0, 1);
                });
            }
        }
    }
}

void run()
{
    all<float>(0);
    all<double>(1);
    mc::sample("frame 4 hop 2 max 6: buffers 3 0 6 1 5, then 6s");
}

}  // namespace
MC_MAIN(run)
