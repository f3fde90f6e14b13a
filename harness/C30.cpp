// MC-TITLE: The plugin's spectrum views and audio files keep every value in its place
// MC-TECH: all assignments of levels to small spectrograms under every weighting and every threshold between two levels, each pixel and bucket compared with the definition; all sizes and faults of audio files through recording stand-ins
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-INCLUDE: repo:extra/plugin/src verif:stubs/juce
// MC-BOUNDS: Spectrograms of 1x1..2x3 and 3x2 with all assignments of 6 levels (silence, 0, -3, -20, -41, -63 dB; 4 levels beyond four coefficients; thorough 8 and 6) and four rotating phases, spectrum amplitudes 2^-20, 1, 2^20; fixed spectrograms of up to 40x33, 257x129, 65540x3 and 3x65540; weightings: none, falling, rising, alternating, A-weighting; thresholds in the middle of every gap between two weighted levels and outside all of them, and thresholds equal to the level of the loudest coefficient at every position of 1x1..3x3. Files: 1..4 channels, 0..40 samples and 65537, bit depths 8..32, readable/unreadable/truncated/missing, unwritable files, unsupported formats, equal, nearly equal (half a hertz) and different sample rates.
// MC-ASSUME: at least one sample is written; JUCE is replaced by a stand-in (stubs/juce); levels of silent bins, and of bins more than 72 dB below the loudest, are only required to lie at or below the floor of the level scale; that a level which equals the threshold reaches it is checked where both are exact (the loudest coefficient, a power of two on an axis, threshold equal to its weight).
#include "convcommon.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/Spectrum.cpp"

#include <neo/math/a_weighting.hpp>

using namespace cc;

namespace {

using cf    = std::complex<float>;
using frame = Kokkos::Experimental::mdarray<cf, ext2>;

auto weight(int kind, std::size_t bin, std::size_t bins) -> double
{
    switch (kind) {
    case 0: return 0.0;
    case 1: return -4.0 * double(bin % 7) - 0.125;
    case 2: return -4.0 * double((bins - 1 - bin) % 7) - 0.125;
    case 3: return bin % 2 == 0 ? 2.0 : -9.0;
    default: return bin == 0 ? 0.0 : std::max(-50.0, double(neo::a_weighting(100.0F * float(bin))));
    }
}

struct model_view
{
    std::size_t F, K;
    std::vector<double> dB;  // weighted level; -inf for silence and for anything below the floor of the level scale
    std::vector<double> floor;  // highest level a silent bin may be given
};

auto levels(frame const& x, int kind) -> model_view
{
    auto m     = model_view{x.extent(0), x.extent(1), {}, {}};
    double top = 0;
    for (std::size_t f = 0; f < m.F; ++f) {
        for (std::size_t k = 0; k < m.K; ++k) {
            top = std::max(top, std::norm(std::complex<double>(x(f, k))));
        }
    }
    for (std::size_t f = 0; f < m.F; ++f) {
        for (std::size_t k = 0; k < m.K; ++k) {
            auto const p = std::norm(std::complex<double>(x(f, k)));
            auto const w = weight(kind, k, m.K);
            auto const d = p > 0 ? 10 * std::log10(p / top) : -std::numeric_limits<double>::infinity();
            m.dB.push_back(d > -71.9 ? d + w : -std::numeric_limits<double>::infinity());
            m.floor.push_back(-72.0 + w);
        }
    }
    return m;
}

auto weighting(int kind, std::size_t bins) -> std::function<float(std::size_t)>
{
    return [=](std::size_t bin) {
        mc::require(bin < bins, "the weight of bin %zu was asked for, there are %zu bins", bin, bins);
        return float(weight(kind, bin, bins));
    };
}

void histogram(frame const& x, int kind, bool draw = true)
{
    auto const m    = levels(x, kind);
    auto const view = Kokkos::mdspan<cf const, ext2>{x.data(), m.F, m.K};
    auto const h    = neo::powerHistogram(view, weighting(kind, m.K));
    mc::transition();
    mc::require(!h.empty(), "no buckets");
    std::vector<long> want(h.size(), 0), slack(h.size() + 1, 0);
    long total = 0, silent = 0;
    long first_silent = long(h.size());
    auto const bucket = [&](double d) { return std::size_t(std::lround(std::min(std::abs(std::min(d, 0.0)), double(h.size() - 1)))); };
    bool ambiguous = false;
    for (std::size_t i = 0; i < m.dB.size(); ++i) {
        ++total;
        if (std::isinf(m.dB[i])) {
            ++silent;
            first_silent = std::min(first_silent, long(bucket(m.floor[i] + 0.5)));
            continue;
        }
        ambiguous = ambiguous || std::abs(std::abs(m.dB[i]) - std::floor(std::abs(m.dB[i])) - 0.5) < 1e-3;
        want[bucket(m.dB[i])] += 1;
    }
    long sum = 0, above = 0;
    for (std::size_t b = 0; b < h.size(); ++b) {
        sum += h[b];
        mc::require(h[b] >= 0, "bucket %zu counts %d", b, h[b]);
        if (ambiguous) {
            continue;
        }
        if (silent == 0 || long(b) < first_silent) {
            mc::require(h[b] == want[b], "%zux%zu weighting %d: %ld coefficients have a level of -%zu dB, the histogram says %d", m.F, m.K, kind, want[b], b, h[b]);
        } else {
            mc::require(h[b] >= want[b], "%zux%zu weighting %d: at least %ld coefficients have a level of -%zu dB, the histogram says %d", m.F, m.K, kind, want[b], b, h[b]);
            above += h[b] - want[b];
        }
    }
    mc::require(sum == total, "%zux%zu: %ld coefficients, %ld counted", m.F, m.K, total, sum);
    mc::require(ambiguous || silent == 0 || above == silent, "%ld silent coefficients, %ld counted", silent, above);

    if (!draw) {
        return;
    }
    // the picture: bucket i is a bar of height proportional to its count; the last bucket is not shown
    auto const img = neo::powerHistogramImage(view, weighting(kind, m.K));
    mc::transition();
    if (img.isNull()) {
        return;
    }
    int top = 0;
    for (std::size_t b = 0; b + 1 < h.size(); ++b) {
        top = std::max(top, h[b]);
    }
    auto const bars = int(h.size()) - 1;
    mc::require(img.getWidth() % bars == 0 && img.getHeight() > 0, "the picture is %d pixels wide for %d buckets", img.getWidth(), bars);
    auto const w = img.getWidth() / bars;
    mc::require(img.data->outside == 0, "a pixel outside of the picture was set");
    for (int b = 0; b < bars && top > 0; ++b) {
        auto const want_rows = double(h[std::size_t(b)]) / double(top) * img.getHeight();
        for (int c = 0; c < w; ++c) {
            // rows in the colour of the bottom-most pixel of a full bar: count from the bottom up to the first change
            auto const bright = [&](int y) { return img.getPixelAt(b * w + c, y).g; };
            int rows          = 0;
            for (int y = 0; y < img.getHeight(); ++y) {
                rows += bright(y) > 0.2F ? 1 : 0;
            }
            mc::require(std::abs(rows - want_rows) <= 0.51 + 1e-3, "bar %d column %d: %d rows filled, %.2f expected", b, c, rows, want_rows);
            for (int y = 0; y < img.getHeight(); ++y) {
                mc::require((bright(y) > 0.2F) == (y >= img.getHeight() - rows), "bar %d does not stand on the lower edge", b);
            }
        }
    }
}

void picture(frame const& x, int kind, bool all_thresholds)
{
    auto const m    = levels(x, kind);
    auto const view = Kokkos::mdspan<cf const, ext2>{x.data(), m.F, m.K};
    std::vector<double> cuts;
    for (std::size_t i = 0; i < m.dB.size(); ++i) {
        cuts.push_back(std::isinf(m.dB[i]) ? m.floor[i] : m.dB[i]);
    }
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end(), [](double a, double b) { return b - a < 0.02; }), cuts.end());
    std::vector<double> thresholds{cuts.front() - 1, cuts.back() + 1};
    for (std::size_t i = 0; i + 1 < cuts.size(); ++i) {
        thresholds.push_back((cuts[i] + cuts[i + 1]) / 2);
    }
    if (!all_thresholds && thresholds.size() > 12) {
        std::vector<double> some;
        for (std::size_t i = 0; i < 12; ++i) {
            some.push_back(thresholds[i * thresholds.size() / 12]);
        }
        thresholds = some;
    }
    for (auto t : thresholds) {
        auto const img = neo::powerSpectrumImage(view, weighting(kind, m.K), float(t));
        mc::transition();
        mc::require(img.getWidth() == int(m.F) && img.getHeight() == int(m.K), "%zu frames of %zu bins drawn as %dx%d", m.F, m.K, img.getWidth(), img.getHeight());
        mc::require(img.data->outside == 0, "a pixel outside of the picture was set");
        for (std::size_t f = 0; f < m.F; ++f) {
            for (std::size_t k = 0; k < m.K; ++k) {
                auto const d  = m.dB[f * m.K + k];
                auto const px = img.getPixelAt(int(f), int(m.K - 1 - k));
                mc::require(px == juce::Colours::white || px == juce::Colours::black, "frame %zu bin %zu is neither black nor white", f, k);
                if (std::isinf(d) && t < m.floor[f * m.K + k] + 0.01) {
                    continue;  // a silent bin has the floor level, which may exceed a threshold this low
                }
                if (std::abs(d - t) < 0.005) {
                    continue;
                }
                mc::require((px == juce::Colours::black) == (d >= t), "%zux%zu weighting %d: frame %zu bin %zu has a weighted level of %.2f dB, threshold %.2f, but is drawn %s",
                            m.F, m.K, kind, f, k, d, t, px == juce::Colours::black ? "black" : "white");
            }
        }
    }
}

constexpr double ladder[] = {0.0, 0.0, -3.2, -20.1, -41.3, -63.4, -10.8, -55.2};

auto value(unsigned level, std::size_t i, int amplitude) -> cf
{
    if (level == 0) {
        return {};
    }
    auto const a = std::ldexp(std::pow(10.0, ladder[level] / 20), amplitude);
    switch (i % 4) {
    case 0: return {float(a), 0.0F};
    case 1: return {0.0F, float(-a)};
    case 2: return {float(-0.6 * a), float(0.8 * a)};
    default: return {float(0.8 * a), float(0.6 * a)};
    }
}

void all_assignments(std::size_t F, std::size_t K, int kind, int amplitude)
{
    unsigned const L    = mc::thorough() ? (F * K > 5 ? 6 : 8) : (F * K > 4 ? 4 : 6);
    std::uint64_t total = 1;
    for (std::size_t i = 0; i < F * K; ++i) {
        total *= L;
    }
    for (std::uint64_t code = 0; code < total; ++code) {
        auto x   = frame{F, K};
        auto rem = code;
        for (std::size_t i = 0; i < F * K; ++i) {
            x(i / K, i % K) = value(unsigned(L == 4 ? rem % L + rem % L / 2 : rem % L), i, amplitude);
            rem /= L;
        }
        picture(x, kind, true);
        histogram(x, kind, total <= 40 || code % 61 == 0);
        mc::trace();
        mc::states(1);
    }
}

/// a level that equals the threshold reaches it
void reaching(std::size_t F, std::size_t K, int kind)
{
    for (int amplitude : {-4, 0, 6}) {
        for (std::size_t at = 0; at < F * K; ++at) {
            for (unsigned phase = 0; phase < 4; ++phase) {
                auto x = frame{F, K};
                for (std::size_t i = 0; i < F * K; ++i) {
                    x(i / K, i % K) = value(3, i, amplitude);
                }
                auto const a      = std::ldexp(1.0F, amplitude);
                x(at / K, at % K) = phase % 2 == 0 ? cf{phase == 0 ? a : -a, 0.0F} : cf{0.0F, phase == 1 ? a : -a};
                auto const view   = Kokkos::mdspan<cf const, ext2>{x.data(), F, K};
                auto const t      = float(weight(kind, at % K, K));
                auto const img    = neo::powerSpectrumImage(view, weighting(kind, K), t);
                mc::transition();
                mc::require(img.getPixelAt(int(at / K), int(K - 1 - at % K)) == juce::Colours::black, "%zux%zu weighting %d: the level of coefficient %zu equals the threshold of %.2f dB, but it is drawn white", F, K, kind, at, double(t));
                mc::states(1);
            }
        }
    }
    mc::trace();
}

void large(std::size_t F, std::size_t K, int kind)
{
    auto x = frame{F, K};
    for (std::size_t f = 0; f < F; ++f) {
        for (std::size_t k = 0; k < K; ++k) {
            x(f, k) = value(unsigned((f * 5 + k * 3 + f * k / 7 + k / 256 + f / 256) % 8), f + k, 0);
        }
    }
    x(F - 1, K - 1) = value(1, 0, 0);
    x(0, 0)         = value(5, 0, 0);
    if (F * K < 40000) {
        histogram(x, kind);
    } else {
        histogram(x, 0);
    }
    picture(x, kind, F * K < 2000);
    // the loudest coefficient at every position in turn decides the reference level
    if (F * K <= 200) {
        for (std::size_t i = 0; i < F * K; ++i) {
            auto y          = x;
            y(i / K, i % K) = cf{8.0F, 0.0F};
            histogram(y, kind, i % 16 == 0);
            picture(y, kind, true);
            mc::states(1);
        }
    }
    mc::states(1);
    mc::trace();
}

auto sample_of(std::size_t c, std::size_t i) -> float { return float(long((i * 7 + c * 11 + 3) % 33) - 16) / 16 + float(c) * 0.01F; }

auto stream(std::size_t channels, std::size_t n, double rate, bool readable, bool truncated) -> juce::File
{
    auto s = std::make_shared<juce::InputStream>();
    s->samples.setSize(int(channels), int(n));
    for (std::size_t c = 0; c < channels; ++c) {
        for (std::size_t i = 0; i < n; ++i) {
            s->samples.setSample(int(c), int(i), sample_of(c, i));
        }
    }
    s->sampleRate = rate;
    s->readable   = readable;
    s->truncated  = truncated;
    return juce::File{s, nullptr};
}

void reading(std::size_t channels, std::size_t n)
{
    auto formats = juce::AudioFormatManager{};
    formats.registerBasicFormats();
    for (double rate : {44100.0, 48000.0, 22050.0, 96000.0, 44100.5, 47999.0}) {
        auto const f = stream(channels, n, rate, true, false);
        auto const r = neo::load(formats, f);
        mc::transition();
        mc::require(r.sampleRate == rate && r.buffer.getNumChannels() == int(channels) && r.buffer.getNumSamples() == int(n), "%zux%zu loaded as %dx%d at %f", channels, n,
                    r.buffer.getNumChannels(), r.buffer.getNumSamples(), r.sampleRate);
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                mc::require(r.buffer.getSample(int(c), int(i)) == sample_of(c, i), "channel %zu sample %zu differs from the file", c, i);
            }
        }
        for (double to : {44100.0, 48000.0, 96000.0}) {
            auto const q = neo::loadAndResample(formats, f, to);
            mc::transition();
            mc::require(q.sampleRate == to && q.buffer.getNumChannels() == int(channels), "resampling gives rate %f and %d channels", q.sampleRate, q.buffer.getNumChannels());
            auto const want = to == rate ? double(n) : std::max(1.0, double(n) * to / rate);
            mc::require(std::abs(q.buffer.getNumSamples() - want) <= 0.51, "%zu samples from %f to %f Hz: %d samples", n, rate, to, q.buffer.getNumSamples());
            for (std::size_t c = 0; c < channels; ++c) {
                for (int i = 0; i < q.buffer.getNumSamples(); ++i) {
                    auto const at = double(i) * rate / to;
                    auto const k  = std::size_t(at + 1e-9);
                    auto get      = [&](std::size_t j) { return j < n ? double(sample_of(c, j)) : 0.0; };
                    auto const y  = get(k) * (1 - (at - double(k))) + get(k + 1) * (at - double(k));
                    mc::require(std::abs(q.buffer.getSample(int(c), i) - y) < 1e-3, "from %f to %f Hz: channel %zu sample %d is %f, expected %f", rate, to, c, i, q.buffer.getSample(int(c), i), y);
                }
            }
        }
        mc::states(1);
        mc::trace();
    }
    for (int fault = 0; fault < 3; ++fault) {
        auto const f = fault == 2 ? juce::File{} : stream(channels, n, 48000, fault != 0, fault == 1);
        mc::require(neo::load(formats, f).buffer.getNumChannels() == 0, "a file that cannot be read yields %zu channels", channels);
        mc::require(neo::loadAndResample(formats, f, 48000).buffer.getNumChannels() == 0, "a file that cannot be read yields channels");
        mc::transition(2);
        mc::states(1);
        mc::trace();
    }
}

void writing(std::size_t channels, std::size_t n)
{
    for (int bits : {8, 16, 24, 32}) {
        for (double rate : {8000.0, 44100.0, 48000.0, 192000.0}) {
            for (int fault = 0; fault < 3; ++fault) {
                for (bool as_buffer : {false, true}) {
                    auto sink         = std::make_shared<juce::Written>();
                    sink->refuse      = fault == 1;
                    sink->unsupported = fault == 2;
                    auto const f      = juce::File{nullptr, sink};
                    auto b            = juce::AudioBuffer<float>{int(channels), int(n)};
                    auto a            = Kokkos::Experimental::mdarray<float, ext2>{channels, n};
                    for (std::size_t c = 0; c < channels; ++c) {
                        for (std::size_t i = 0; i < n; ++i) {
                            b.setSample(int(c), int(i), sample_of(c, i));
                            a(c, i) = sample_of(c, i);
                        }
                    }
                    if (as_buffer) {
                        neo::writeToWavFile(f, b, rate, bits);
                    } else {
                        neo::writeToWavFile(f, a.to_mdspan(), rate, bits);
                    }
                    mc::transition();
                    mc::require(sink->alive == 0, "%d streams are still open", sink->alive);
                    if (fault != 0) {
                        mc::require(sink->headers == 0, "written although the format is not available");
                        continue;
                    }
                    mc::require(sink->opened == 1 && sink->headers == 1, "the file was opened %d times", sink->opened);
                    mc::require(sink->sampleRate == rate && sink->bits == bits && sink->channels == channels, "written as %u channels, %d bits, %f Hz", sink->channels, sink->bits, sink->sampleRate);
                    for (std::size_t c = 0; c < channels; ++c) {
                        mc::require(sink->samples[c].size() == n, "channel %zu has %zu samples in the file, expected %zu", c, sink->samples[c].size(), n);
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(sink->samples[c][i] == sample_of(c, i), "channel %zu sample %zu: file holds %f", c, i, sink->samples[c][i]);
                        }
                    }
                    mc::states(1);
                    mc::trace();
                }
            }
        }
    }
}

void run()
{
    struct shape { std::size_t F, K; };
    for (int kind = 0; kind < 5; ++kind) {
        for (auto s : {shape{1, 1}, shape{1, 2}, shape{2, 1}, shape{1, 3}, shape{3, 1}, shape{2, 2}, shape{1, 4}, shape{1, 5}, shape{2, 3}, shape{3, 2}}) {
            for (int amp : {-20, 0, 20}) {
                if (s.F * s.K > 4 && amp != 0) {
                    continue;
                }
                mc::check("levels", {long(s.F), long(s.K), kind, amp}, [=] { all_assignments(s.F, s.K, kind, amp); });
            }
        }
        if (kind < 4) {
            for (std::size_t f = 1; f <= 3; ++f) {
                for (std::size_t k = 1; k <= 3; ++k) {
                    mc::check("reaching", {long(f), long(k), kind}, [=] { reaching(f, k, kind); });
                }
            }
        }
        for (auto s : {shape{5, 9}, shape{9, 5}, shape{13, 17}, shape{40, 33}, shape{257, 129}, shape{65540, 3}, shape{3, 65540}}) {
            mc::check("spectrogram", {long(s.F), long(s.K), kind}, [=] { large(s.F, s.K, kind); });
        }
    }
    for (std::size_t ch = 1; ch <= 4; ++ch) {
        for (std::size_t n : {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 40, 65537}) {
            mc::check("reading", {long(ch), long(n)}, [=] { reading(ch, n); });
            if (n != 0 && (n != 65537 || ch == 2)) {
                mc::check("writing", {long(ch), long(n)}, [=] { writing(ch, n); });
            }
        }
    }
    mc::sample("2x3 spectrogram {silence, 0, -20, -41 dB}^6, falling weights, every threshold between two levels");
}

}  // namespace
MC_MAIN(run)
