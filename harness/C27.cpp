// MC-TITLE: The plugin's convolution engines filter every channel with its own impulse
// MC-TECH: all words over {process, load good/bad file, prepare, reset} and all host buffer schedules on the real engine, compared with a frame-by-frame convolution model; offline renderers over all lengths, block sizes and thresholds against a spectral model
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 3
// MC-INCLUDE: repo:extra/plugin/src verif:stubs/juce
// MC-BOUNDS: Block engine: blocks 2, 4, 8, 16, 64, every response length up to 3 blocks (selected beyond 13), 1..3 channels, all words of length 5 (thorough 6) over {process a whole block, process another size, load A, load B (other rate), load unreadable, load missing, prepare, prepare with other block size and width, reset}, repeated offline rendering. Engine: block sizes 2..9, 16, 17, 64; impulse responses of 1..3*frame+1 samples (every length up to 13, then selected) with 1..3 channels on buses of 1..3 channels; all host schedules of four buffers from {0, 1, max/2, max} and constant schedules of every size; all words of length 5 (thorough 6) over {process small, process full, load A, load B (longer, other channel count), load unreadable, load truncated, prepare, reset}; all words of length 4 (thorough 5) over {load at four rates, prepare at three rates, process and reset}. Offline renderers: dense with overlap-save/overlap-add/split convolvers and sparse, signals of 1..4*block+1 samples, blocks 2, 4, 8, 16, 64, filters of 1..3*block+1 samples, 1..3 channels; sparse with keep-all, drop-all and every threshold in the middle of a gap of the weighted coefficient levels, 0..bins-1 low bins kept.
// MC-ASSUME: JUCE is replaced by a stand-in (stubs/juce); file decoding and resampling are the stand-in's; impulse responses have at least one sample and one channel.
#include "convcommon.hpp"

#include "dsp/AudioBuffer.cpp"
#include "dsp/AudioFile.cpp"
#include "dsp/Convolution.hpp"
#include "dsp/DenseConvolution.cpp"

using namespace cc;

namespace {

using matrix2 = std::vector<rvec>;  // [channel][sample]

auto response(std::size_t channels, std::size_t len, int salt) -> matrix2
{
    matrix2 h;
    for (std::size_t c = 0; c < channels; ++c) {
        auto x = dense(len, salt + int(c) * 3);
        x[0] += 1;
        x[len - 1] -= real(c + 1) / 4;
        h.push_back(x);
    }
    return h;
}

/// scaled so that the loudest channel has unit energy
auto normalised(matrix2 h) -> matrix2
{
    real e = 0;
    for (auto const& x : h) {
        e = std::max(e, l2(x));
    }
    for (auto& x : h) {
        for (auto& v : x) {
            v = e == 0 ? v : v / e;
        }
    }
    return h;
}

auto to_buffer(matrix2 const& m) -> juce::AudioBuffer<float>
{
    juce::AudioBuffer<float> b{int(m.size()), int(m.empty() ? 0 : m[0].size())};
    for (std::size_t c = 0; c < m.size(); ++c) {
        for (std::size_t i = 0; i < m[c].size(); ++i) {
            b.setSample(int(c), int(i), float(m[c][i]));
        }
    }
    return b;
}

auto file(matrix2 const& m, double rate, bool readable = true, bool truncated = false) -> std::unique_ptr<juce::InputStream>
{
    auto s        = std::make_unique<juce::InputStream>();
    s->samples    = to_buffer(m);
    s->sampleRate = rate;
    s->readable   = readable;
    s->truncated  = truncated;
    return s;
}

/// linear interpolation, as the stand-in's resampler does it
auto resampled(matrix2 const& m, double from, double to) -> matrix2
{
    if (from == to) {
        return m;
    }
    auto const ratio = from / to;
    auto const n     = std::size_t(juce::roundToInt(std::max(1.0, double(m[0].size()) / ratio)));
    matrix2 r(m.size(), rvec(n, 0.0L));
    for (std::size_t c = 0; c < m.size(); ++c) {
        for (std::size_t i = 0; i < n; ++i) {
            auto const at = double(i) * ratio;
            auto const k  = std::size_t(at);
            auto get      = [&](std::size_t j) { return j < m[c].size() ? m[c][j] : 0.0L; };
            r[c][i]       = get(k) * (1 - (at - double(k))) + get(k + 1) * (at - double(k));
        }
    }
    return r;
}

auto sig(std::size_t c, std::size_t i) -> real { return real(long((i * 23 + c * 7 + (i / 5) * 3) % 41) - 20) / 16; }

/// model of the engine: frames of the input, convolved since the last (re)start of the convolvers, delayed by frame-1
struct reference
{
    std::size_t frame, channels;
    matrix2 h;  // already normalised, one row per bus channel
    std::vector<rvec> pending, history, out;
    real peak{0};

    void start_stream(std::size_t f, std::size_t ch)
    {
        frame    = f;
        channels = ch;
        pending.assign(ch, {});
        out.assign(ch, rvec(f - 1, 0.0L));
        history.assign(ch, {});
    }
    void install(matrix2 const& ir)
    {
        h.clear();
        for (std::size_t c = 0; c < channels; ++c) {
            h.push_back(ir.empty() ? basis(1, 0) : ir[std::min(c, ir.size() - 1)]);
        }
        history.assign(channels, {});
    }
    void push(std::size_t c, real v)
    {
        pending[c].push_back(v);
        if (pending[c].size() == frame) {
            auto& x = history[c];
            x.insert(x.end(), pending[c].begin(), pending[c].end());
            pending[c].clear();
            for (std::size_t n = x.size() - frame; n < x.size(); ++n) {
                real y = 0;
                for (std::size_t k = 0; k < h[c].size() && k <= n; ++k) {
                    y += h[c][k] * x[n - k];
                }
                out[c].push_back(y);
            }
        }
    }
};

struct session
{
    neo::DenseConvolution engine;
    reference ref;
    std::size_t block, frame, channels{0}, limit{0};
    std::optional<std::pair<matrix2, double>> loaded;
    double rate{48000};
    bool prepared{false};
    std::size_t consumed{0};  // position in ref.out
    std::size_t t{0};

    explicit session(std::size_t b) : engine{int(b)}, block(b), frame(1)
    {
        while (frame < b) {
            frame *= 2;
        }
    }

    void refresh()
    {
        if (!prepared) {
            return;
        }
        ref.install(loaded ? normalised(resampled(loaded->first, loaded->second, rate)) : matrix2{});
    }
    void prepare(std::size_t maxb, std::size_t ch, double sr = 48000)
    {
        limit    = maxb;
        channels = ch;
        rate     = sr;
        prepared = true;
        engine.prepare({sr, juce::uint32(maxb), juce::uint32(ch)});
        ref.start_stream(frame, ch);
        consumed = 0;
        refresh();
        mc::transition();
    }
    void load(matrix2 const& m, double sr)
    {
        engine.loadImpulseResponse(file(m, sr));
        loaded = {m, sr};
        refresh();
        mc::transition();
    }
    void load_bad(int kind, matrix2 const& m)
    {
        engine.loadImpulseResponse(kind == 0 ? file(m, 48000, false) : kind == 1 ? file(m, 48000, true, true) : nullptr);
        mc::transition();
    }
    void reset()
    {
        engine.reset();
        ref.start_stream(frame, channels);
        consumed = 0;
        refresh();
        mc::transition();
    }
    void process(std::size_t n)
    {
        n = std::min(n, limit);
        juce::AudioBuffer<float> b{int(channels), int(n)};
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                auto const v = sig(c, t + i);
                b.setSample(int(c), int(i), float(v));
                ref.push(c, v);
            }
        }
        t += n;
        auto blk = juce::dsp::AudioBlock<float>{b};
        engine.process(juce::dsp::ProcessContextReplacing<float>{blk});
        for (std::size_t c = 0; c < channels; ++c) {
            real norm = 0;
            for (auto v : ref.history[c]) {
                norm += v * v;
            }
            auto const tol = eps<float>() * 200 * (std::sqrt(norm) + 1) * (l2(ref.h[c]) + 1e-3L);
            for (std::size_t i = 0; i < n; ++i) {
                auto const want = ref.out[c][consumed + i];
                auto const got  = real(b.getSample(int(c), int(i)));
                mc::require(std::abs(got - want) <= tol, "block size %zu: output sample %zu of channel %zu is %Lg, expected %Lg", block, consumed + i, c, got, want);
            }
        }
        consumed += n;
        mc::transition();
    }
    void drain()
    {
        auto const goal = consumed + 3 * frame + 1;
        while (consumed < goal) {
            process(limit);
        }
        mc::trace();
    }
};

auto lengths(std::size_t frame) -> std::vector<std::size_t>
{
    std::vector<std::size_t> r;
    for (std::size_t n = 1; n <= std::min<std::size_t>(3 * frame + 1, 13); ++n) {
        r.push_back(n);
    }
    for (auto n : {frame - 1, frame, frame + 1, 2 * frame - 1, 2 * frame, 2 * frame + 1, 3 * frame, 3 * frame + 1}) {
        if (n > 13) {
            r.push_back(n);
        }
    }
    return r;
}

void engine_shapes(std::size_t B)
{
    auto probe = session{B};
    for (auto L : lengths(probe.frame)) {
        for (std::size_t bus = 1; bus <= 3; ++bus) {
            for (std::size_t ch = 1; ch <= 3; ++ch) {
                for (std::size_t maxb : {B, std::size_t(1), 2 * B + 1}) {
                    auto s = session{B};
                    if (ch % 2 == 0) {
                        s.load(response(ch, L, int(L)), 48000);
                        s.prepare(maxb, bus);
                    } else {
                        s.prepare(maxb, bus);
                        s.load(response(ch, L, int(L)), 48000);
                    }
                    for (int r = 0; r < 2; ++r) {
                        s.drain();
                    }
                    mc::states(1);
                }
            }
        }
    }
    // without an impulse response the engine is a pure delay
    for (std::size_t bus = 1; bus <= 3; ++bus) {
        auto s = session{B};
        s.prepare(B, bus);
        s.drain();
        // a file at another rate is resampled to the rate of the stream
        auto u = session{B};
        u.prepare(B, bus, 44100);
        u.load(response(bus, 2 * B + 3, 5), 22050);
        u.drain();
        u.prepare(B, bus, 22050);
        u.drain();
        mc::states(2);
    }
}

void engine_schedules(std::size_t B)
{
    auto const maxb = 2 * B + 1;
    std::size_t const sizes[] = {0, 1, (maxb + 1) / 2, maxb};
    for (unsigned code = 0; code < 256; ++code) {
        auto s = session{B};
        s.load(response(2, B + 2, int(code % 5)), 48000);
        s.prepare(maxb, 2);
        for (unsigned i = 0, c = code; i < 4; ++i, c /= 4) {
            s.process(sizes[c % 4]);
        }
        s.drain();
        mc::states(1);
    }
    for (std::size_t n = 1; n <= maxb; ++n) {
        auto s = session{B};
        s.load(response(2, 2 * B + 1, 3), 48000);
        s.prepare(maxb, 2);
        for (std::size_t i = 0; i < 4 * maxb / n + 4; ++i) {
            s.process(n);
        }
        s.drain();
        mc::states(1);
    }
}

void engine_histories(std::size_t B, unsigned first)
{
    unsigned const letters = 9;
    unsigned const depth   = mc::thorough() ? 6 : 5;
    std::uint64_t total    = 1;
    for (unsigned i = 1; i < depth; ++i) {
        total *= letters;
    }
    auto const A  = response(2, B + 1, 1);
    auto const Bm = response(1, 3 * B, 4);
    for (std::uint64_t code = 0; code < total; ++code) {
        auto s = session{B};
        s.prepare(B, 2);
        auto rem = code * letters + first;
        for (unsigned i = 0; i < depth; ++i) {
            auto const l = rem % letters;
            rem /= letters;
            switch (l) {
            case 0: s.process(1); break;
            case 1: s.process(B); break;
            case 2: s.load(A, 48000); break;
            case 3: s.load(Bm, 48000); break;
            case 4: s.load_bad(0, Bm); break;
            case 5: s.load_bad(1, Bm); break;
            case 6: s.prepare(B, 2); break;
            case 7: s.prepare(B + 1, 1); break;
            case 8: s.reset(); break;
            }
        }
        s.drain();
        mc::states(1);
    }
}

/// the response follows the rate of the stream: every prepare() starts from the file
void engine_rates(std::size_t B, unsigned first)
{
    unsigned const letters = 8;
    unsigned const depth   = mc::thorough() ? 5 : 4;
    std::uint64_t total    = 1;
    for (unsigned i = 1; i < depth; ++i) {
        total *= letters;
    }
    auto const A  = response(2, 2 * B + 1, 1);
    auto const Bm = response(2, B + 3, 4);
    for (std::uint64_t code = 0; code < total; ++code) {
        auto s   = session{B};
        auto rem = code * letters + first;
        for (unsigned i = 0; i < depth; ++i) {
            auto const l = rem % letters;
            rem /= letters;
            switch (l) {
            case 0: s.load(A, 96000); break;
            case 1: s.load(A, 24000); break;
            case 2: s.load(Bm, 48000); break;
            case 3: s.load(Bm, 47999.5); break;
            case 4: s.prepare(B, 2, 44100); break;
            case 5: s.prepare(B, 2, 48000); break;
            case 6: s.prepare(B, 2, 96000); break;
            case 7:
                if (s.prepared) {
                    s.process(B);
                    s.reset();
                }
                break;
            }
        }
        if (s.prepared) {
            s.drain();
        }
        mc::states(1);
    }
}

// --- offline renderers -------------------------------------------------------------------------------

void compare(juce::AudioBuffer<float> const& got, std::vector<rvec> const& want, std::vector<real> const& tol, char const* what)
{
    mc::require(got.getNumChannels() == int(want.size()) && got.getNumSamples() == int(want[0].size()), "%s returned %d x %d samples, expected %zu x %zu", what, got.getNumChannels(), got.getNumSamples(), want.size(), want[0].size());
    for (std::size_t c = 0; c < want.size(); ++c) {
        for (std::size_t i = 0; i < want[c].size(); ++i) {
            auto const g = real(got.getSample(int(c), int(i)));
            mc::require(std::abs(g - want[c][i]) <= tol[c], "%s: sample %zu of channel %zu is %Lg, expected %Lg", what, i, c, g, want[c][i]);
        }
    }
    mc::transition();
    mc::trace();
}

auto source(std::size_t channels, std::size_t n) -> matrix2
{
    matrix2 x;
    for (std::size_t c = 0; c < channels; ++c) {
        rvec v(n);
        for (std::size_t i = 0; i < n; ++i) {
            v[i] = sig(c, i);
        }
        x.push_back(v);
    }
    return x;
}

void offline_dense(std::size_t B, std::size_t L)
{
    for (std::size_t ch = 1; ch <= 3; ++ch) {
        auto const h = response(ch, L, int(L));
        auto const g = normalised(h);
        for (std::size_t n : {std::size_t(1), B - 1, B, B + 1, 2 * B, 3 * B - 1, 4 * B + 1}) {
            if (n == 0) {
                continue;
            }
            auto const x = source(ch, n);
            std::vector<rvec> want;
            std::vector<real> tol;
            for (std::size_t c = 0; c < ch; ++c) {
                want.push_back(stream(x[c], g[c]));
                tol.push_back(eps<float>() * 200 * (l2(x[c]) + 1) * (l2(g[c]) + 1e-3L));
            }
            using C = std::complex<float>;
            compare(neo::dense_convolve<nc::upols_convolver<C>>(to_buffer(x), to_buffer(h), int(B)), want, tol, "dense_convolve (overlap-save)");
            compare(neo::dense_convolve<nc::upola_convolver<C>>(to_buffer(x), to_buffer(h), int(B)), want, tol, "dense_convolve (overlap-add)");
            compare(neo::dense_convolve<nc::split_upols_convolver<C>>(to_buffer(x), to_buffer(h), int(B)), want, tol, "dense_convolve (split)");
            if (B >= 2) {
                compare(neo::sparse_convolve(to_buffer(x), to_buffer(h), int(B), 44100.0, -1.0e9F, 1), want, tol, "sparse_convolve (keep all)");
                std::vector<rvec> zero(ch, rvec(n, 0.0L));
                compare(neo::sparse_convolve(to_buffer(x), to_buffer(h), int(B), 44100.0, 1.0e9F, 1), zero, tol, "sparse_convolve (drop all)");
            }
            mc::states(1);
        }
    }
}

auto weighting(real f) -> real
{
    auto const f2 = f * f;
    auto const sq = [](real v) { return v * v; };
    return 2 + 20 * std::log10(sq(12194.217L) * f2 * f2 / ((f2 + sq(12194.217L)) * (f2 + sq(20.598997L)) * std::sqrt((f2 + sq(107.65265L)) * (f2 + sq(737.86223L)))));
}

void offline_sparse(std::size_t B, std::size_t L, double rate, std::size_t low)
{
    std::size_t const ch = 2;
    auto const h         = response(ch, L, int(L) + 2);
    auto const g         = normalised(h);
    auto const P         = (L + B - 1) / B;
    auto const x         = source(ch, 3 * B + 1);
    // level of every coefficient relative to the loudest of its channel, frequency weighted
    std::vector<std::vector<vec>> H(ch);
    std::vector<std::vector<rvec>> level(ch);
    rvec all;
    for (std::size_t c = 0; c < ch; ++c) {
        real top = 0;
        for (std::size_t p = 0; p < P; ++p) {
            vec z(2 * B, cplx{});
            for (std::size_t i = 0; i < B && p * B + i < L; ++i) {
                z[i] = g[c][p * B + i];
            }
            H[c].push_back(dft(z, -1));
            for (std::size_t k = 0; k <= B; ++k) {
                top = std::max(top, std::norm(H[c][p][k]));
            }
        }
        for (std::size_t p = 0; p < P; ++p) {
            rvec lv;
            for (std::size_t k = 0; k <= B; ++k) {
                auto const power = std::norm(H[c][p][k]) / top;
                auto const db    = power <= 0 ? -144.0L : std::max(-144.0L, 20 * std::log10(power));
                auto const w     = k < low ? 100.0L : weighting(real(k) * real(rate) / real(2 * B));
                lv.push_back(db * 0.5L + w);
                if (std::isfinite(double(lv.back()))) {
                    all.push_back(lv.back());
                }
            }
            level[c].push_back(lv);
        }
    }
    std::sort(all.begin(), all.end());
    for (std::size_t i = 0; i + 1 < all.size(); ++i) {
        if (all[i + 1] - all[i] < 0.02L) {
            continue;
        }
        auto const threshold = float((all[i] + all[i + 1]) / 2);
        std::vector<rvec> want;
        std::vector<real> tol;
        for (std::size_t c = 0; c < ch; ++c) {
            auto const blocks = (x[c].size() + B - 1) / B;
            rvec y((blocks + 1) * B, 0.0L);
            std::vector<vec> X;
            for (std::size_t b = 0; b < blocks; ++b) {
                vec z(2 * B, cplx{});
                for (std::size_t j = 0; j < B && b * B + j < x[c].size(); ++j) {
                    z[j] = x[c][b * B + j];
                }
                X.push_back(dft(z, -1));
                vec Y(2 * B, cplx{});
                for (std::size_t p = 0; p < P && p <= b; ++p) {
                    for (std::size_t k = 0; k <= B; ++k) {
                        if (level[c][p][k] > threshold) {
                            Y[k] += X[b - p][k] * H[c][p][k];
                        }
                    }
                }
                for (std::size_t k = B + 1; k < 2 * B; ++k) {
                    Y[k] = std::conj(Y[2 * B - k]);
                }
                auto const t = dft(Y, 1);
                for (std::size_t j = 0; j < 2 * B; ++j) {
                    y[b * B + j] += t[j].real() / real(2 * B);
                }
            }
            y.resize(x[c].size());
            want.push_back(y);
            tol.push_back(eps<float>() * 400 * (l2(x[c]) + 1));
        }
        compare(neo::sparse_convolve(to_buffer(x), to_buffer(h), int(B), rate, threshold, int(low)), want, tol, "sparse_convolve (threshold)");
        mc::states(1);
    }
}

// --- the block engine (neo::Convolution): no latency, works on whole blocks, passes anything else through -----

struct block_session
{
    neo::Convolution engine;
    std::size_t B{0}, channels{0};
    double rate{0};
    std::optional<std::pair<matrix2, double>> loaded;
    bool prepared{false}, armed{false};
    matrix2 h;
    std::vector<rvec> x;
    std::size_t t{0};

    using C = neo::Convolution;
    static auto as_file(matrix2 const& m, double sr, bool readable = true, bool truncated = false) -> juce::File
    {
        juce::File f;
        f.content = file(m, sr, readable, truncated);
        return f;
    }
    void rebuild()
    {
        if (!prepared || !loaded) {
            return;
        }
        h     = resampled(loaded->first, loaded->second, rate);
        armed = true;
        x.assign(channels, {});
    }
    void load(juce::File const& f, std::optional<std::pair<matrix2, double>> const& good)
    {
        engine.loadImpulseResponse(f, C::Stereo::yes, C::Trim::no, 0, C::Normalise::no);
        if (good) {
            loaded = good;
        }
        rebuild();
        mc::transition();
    }
    void prepare(std::size_t b, std::size_t ch, double sr)
    {
        engine.prepare({sr, juce::uint32(b), juce::uint32(ch)});
        B        = b;
        channels = ch;
        rate     = sr;
        prepared = true;
        rebuild();
        mc::transition();
    }
    void reset()
    {
        engine.reset();
        armed = false;
        mc::transition();
    }
    void process(std::size_t n, bool separate)
    {
        juce::AudioBuffer<float> in{int(channels), int(n)}, out{int(channels), int(n)};
        std::vector<rvec> want(channels, rvec(n));
        bool const filtered = armed && n == B;
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                want[c][i] = sig(c, t + i);
                in.setSample(int(c), int(i), float(want[c][i]));
            }
            if (filtered) {
                x[c].insert(x[c].end(), want[c].begin(), want[c].end());
                for (std::size_t i = 0; i < n; ++i) {
                    auto const at = x[c].size() - n + i;
                    real y        = 0;
                    for (std::size_t k = 0; k < h[c].size() && k <= at; ++k) {
                        y += h[c][k] * x[c][at - k];
                    }
                    want[c][i] = y;
                }
            }
        }
        t += n;
        auto const ib = juce::dsp::AudioBlock<float const>{in};
        auto ob       = juce::dsp::AudioBlock<float>{separate ? out : in};
        if (separate) {
            engine.process(juce::dsp::ProcessContextNonReplacing<float>{ib, ob});
        } else {
            engine.process(juce::dsp::ProcessContextReplacing<float>{ob});
        }
        for (std::size_t c = 0; c < channels; ++c) {
            auto const tol = filtered ? eps<float>() * 200 * (l2(x[c]) + 1) * (l2(h[c]) + 1e-3L) : 0.0L;
            for (std::size_t i = 0; i < n; ++i) {
                auto const got = real((separate ? out : in).getSample(int(c), int(i)));
                mc::require(std::abs(got - want[c][i]) <= tol, "block of %zu (engine: %zu), %s: sample %zu of channel %zu is %Lg, expected %Lg", n, B, filtered ? "filtered" : "passed through", i, c, got, want[c][i]);
                if (separate) {
                    mc::require(real(in.getSample(int(c), int(i))) == real(float(sig(c, t - n + i))), "the input block was modified");
                }
            }
        }
        mc::transition();
    }
};

void block_shapes(std::size_t B)
{
    for (auto L : lengths(B)) {
        for (std::size_t ch = 1; ch <= 3; ++ch) {
            for (double sr : {48000.0, 24000.0, 96000.0}) {
                for (unsigned order = 0; order < 2; ++order) {
                    auto s       = block_session{};
                    auto const h = std::pair{response(3, L, int(L)), 48000.0};
                    if (order == 0) {
                        s.prepare(B, ch, sr);
                        s.process(B, false);
                        s.load(block_session::as_file(h.first, h.second), h);
                    } else {
                        s.load(block_session::as_file(h.first, h.second), h);
                        s.prepare(B, ch, sr);
                    }
                    for (std::size_t i = 0; i < L / B + 4; ++i) {
                        s.process(B, i % 2 == 1);
                    }
                    mc::states(1);
                    mc::trace();
                }
            }
        }
    }
}

void block_histories(std::size_t B, unsigned first)
{
    unsigned const letters = 9;
    unsigned const depth   = mc::thorough() ? 6 : 5;
    std::uint64_t total    = 1;
    for (unsigned i = 1; i < depth; ++i) {
        total *= letters;
    }
    auto const A  = std::pair{response(2, B + 1, 1), 48000.0};
    auto const Bm = std::pair{response(2, 3 * B, 4), 24000.0};
    for (std::uint64_t code = 0; code < total; ++code) {
        auto s = block_session{};
        s.prepare(B, 2, 48000);
        auto rem = code * letters + first;
        for (unsigned i = 0; i < depth; ++i) {
            auto const l = rem % letters;
            rem /= letters;
            switch (l) {
            case 0: s.process(s.B, false); break;
            case 1: s.process(s.B - 1, true); break;
            case 2: s.load(block_session::as_file(A.first, A.second), A); break;
            case 3: s.load(block_session::as_file(Bm.first, Bm.second), Bm); break;
            case 4: s.load(block_session::as_file(Bm.first, 48000, false), std::nullopt); break;
            case 5: s.load(juce::File{}, std::nullopt); break;
            case 6: s.prepare(B, 2, 48000); break;
            case 7: s.prepare(2 * B, 1, 24000); break;
            case 8: s.reset(); break;
            }
        }
        for (unsigned i = 0; i < 3; ++i) {
            s.process(s.B, i == 1);
        }
        mc::trace();
        mc::states(1);
    }
}

// rendering a file in blocks (processBlocks): whole blocks are filtered, a shorter last one passes through
void block_rendering(std::size_t B, std::size_t n)
{
    for (std::size_t ch = 1; ch <= 2; ++ch) {
        for (std::size_t L : {std::size_t(1), B, B + 1, 3 * B}) {
            auto const h = response(2, L, int(L) + 1);
            auto const x = source(ch, n);
            neo::Convolution engine;
            engine.loadImpulseResponse(block_session::as_file(h, 48000), neo::Convolution::Stereo::yes, neo::Convolution::Trim::no, 0, neo::Convolution::Normalise::no);
            auto in = to_buffer(x);
            juce::AudioBuffer<float> out{int(ch), int(n)};
            for (int pass = 0; pass < 2; ++pass) {  // rendering twice gives the same file
                neo::processBlocks(engine, juce::dsp::AudioBlock<float const>{in}, juce::dsp::AudioBlock<float>{out}, B, 48000.0);
                std::vector<rvec> want;
                std::vector<real> tol;
                for (std::size_t c = 0; c < ch; ++c) {
                    auto y = stream(x[c], h[c]);
                    for (std::size_t i = n / B * B; i < n; ++i) {
                        y[i] = x[c][i];
                    }
                    want.push_back(y);
                    tol.push_back(eps<float>() * 200 * (l2(x[c]) + 1) * (l2(h[c]) + 1e-3L));
                }
                compare(out, want, tol, "processBlocks");
            }
            mc::states(1);
        }
    }
}

#if MC_PART == 2
void run()
{
    for (std::size_t B : {2, 4, 8, 16, 64}) {
        mc::check("block-shapes", {long(B)}, [=] { block_shapes(B); });
        for (std::size_t n : {B, B + 1, 2 * B - 1, 2 * B, 3 * B + 1, 4 * B}) {
            mc::check("block-rendering", {long(B), long(n)}, [=] { block_rendering(B, n); });
        }
    }
    for (std::size_t B : {2, 4, 8}) {
        for (unsigned f = 0; f < 9; ++f) {
            mc::check("block-histories", {long(B), long(f)}, [=] { block_histories(B, f); });
        }
    }
    mc::sample("block 4: prepare, load A, process 4, reset, process 4 (passes through), prepare, process 4 (fresh)");
}
#elif MC_PART == 0
void run()
{
    for (std::size_t B : {2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 64}) {
        mc::check("shapes", {long(B)}, [=] { engine_shapes(B); });
        mc::check("schedules", {long(B)}, [=] { engine_schedules(B); });
    }
    for (std::size_t B : {2, 3, 4, 8}) {
        for (unsigned f = 0; f < 9; ++f) {
            mc::check("histories", {long(B), long(f)}, [=] { engine_histories(B, f); });
        }
    }
    for (std::size_t B : {2, 4, 7}) {
        for (unsigned f = 0; f < 8; ++f) {
            mc::check("rates", {long(B), long(f)}, [=] { engine_rates(B, f); });
        }
    }
    mc::sample("block 4: prepare, load A, process 4, reset, process 1, load unreadable, then full buffers");
}
#else
void run()
{
    for (std::size_t B : {2, 4, 8, 16, 64}) {
        for (auto L : lengths(B)) {
            mc::check("offline", {long(B), long(L)}, [=] { offline_dense(B, L); });
        }
    }
    for (std::size_t B : {2, 4, 8, 16}) {
        for (auto L : lengths(B)) {
            for (double rate : {44100.0, 96000.0}) {
                for (std::size_t low = 0; low <= B; low += (low < 4 ? 1 : 3)) {
                    mc::check("threshold", {long(B), long(L), long(rate), long(low)}, [=] { offline_sparse(B, L, rate, low); });
                }
            }
        }
    }
    mc::sample("block 8, filter 13: every threshold between two weighted coefficient levels");
}
#endif

}  // namespace
MC_MAIN(run)
