// MC-TITLE: STFT and uniform partitioning split signals without loss
// MC-TECH: every combination of signal length, channel count, frame, transform and overlap size within bounds, every coefficient of every frame compared with the windowed, zero-padded DFT; all basis signals for small lengths
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Quick: frame 1..9 and 16, transform = every size from the frame to 17 (rounded up to a power of two by the library), every overlap below the frame, signal lengths 1..40, 1..3 channels, three input layouts; rectangular, Hann, Hamming and an index-coding window; every sample as unit impulse for lengths to 12; default options; plan reuse on different signals; partitioning for blocks 1,2,4,8,16 (and 3,5,6,7 through stft) and lengths 1..70. Thorough: frames to 16, lengths to 100. Structured long shapes: signals to 70000 samples, frames to 512, up to 300 channels. float/double, also samples of the other precision, integer samples and extents counted in int or std::uint8_t. Signals also scaled by 2^-60, 2^-20, 2^20, 2^60.
#include "convcommon.hpp"
#include "indexed.hpp"

using namespace cc;

namespace {

template<typename F>
struct explorer
{
    using C = std::complex<F>;
    long id;

    static auto window(int w, std::size_t i, std::size_t n) -> real
    {
        auto const a = n > 1 ? std::cos(2 * std::numbers::pi_v<real> * real(i) / real(n - 1)) : 0;
        switch (w) {
            case 0: return 1;
            case 1: return n == 1 ? 1 : 0.5L * (1 - a);
            case 2: return n == 1 ? 1 : 0.54L - 0.46L * a;
            default: return real(i + 1) / 8 + real(n) / 4;  // reveals both arguments
        }
    }
    static auto options(std::size_t frame, std::size_t transform, std::size_t overlap, int w) -> neo::fft::stft_options<F>
    {
        auto o           = neo::fft::stft_options<F>{};
        o.frame_size     = frame;
        o.transform_size = transform;
        o.overlap_size   = overlap;
        switch (w) {
            case 0: o.window = neo::rectangular_window<F>{}; break;
            case 1: break;  // default
            case 2: o.window = neo::hamming_window<F>{}; break;
            default: o.window = [](std::size_t i, std::size_t n) { return F(i + 1) / 8 + F(n) / 4; };
        }
        return o;
    }
    static auto pow2(std::size_t n) -> std::size_t
    {
        std::size_t p = 1;
        while (p < n) {
            p *= 2;
        }
        return p;
    }

    template<typename R>
    void verify(R const& r, std::vector<rvec> const& x, std::size_t frame, std::size_t transform, std::size_t overlap, int w, char const* what)
    {
        auto const hop = frame - overlap;
        auto const len = x[0].size();
        auto const T   = pow2(transform);
        mc::require(r.extent(0) == x.size(), "%s: %zu channels for %zu", what, std::size_t(r.extent(0)), x.size());
        mc::require(r.extent(2) == T / 2 + 1, "%s: %zu bins for a %zu-point transform", what, std::size_t(r.extent(2)), T);
        auto const frames = std::size_t(r.extent(1));
        mc::require(frames >= 1 && (frames - 1) * hop + frame >= len, "%s: len %zu frame %zu overlap %zu: %zu frames do not cover the signal", what, len, frame, overlap, frames);
        mc::require((frames - 1) * hop < len, "%s: len %zu frame %zu overlap %zu: %zu frames, the last one starts behind the signal", what, len, frame, overlap, frames);
        std::vector<F> got;
        for (std::size_t c = 0; c < x.size(); ++c) {
            for (std::size_t f = 0; f < frames; ++f) {
                vec z(T, cplx{});
                for (std::size_t i = 0; i < frame && f * hop + i < len; ++i) {
                    z[i] = x[c][f * hop + i] * window(w, i, frame);
                }
                auto const Z   = dft(z, -1);
                auto const tol = eps<F>() * real(24 + 8 * std::log2(double(T) + 1)) * (l1(z) + 1e-60L) + eps<F>() * 8 * l1(x[c]);
                for (std::size_t k = 0; k <= T / 2; ++k) {
                    auto const v = r(c, f, k);
                    got.push_back(v.real());
                    if (dist(lift(v), Z[k]) > tol) {
                        mc::fail("%s: len %zu frame %zu transform %zu overlap %zu window %d: channel %zu frame %zu bin %zu is (%Lg,%Lg), expected (%Lg,%Lg)", what, len, frame, transform, overlap, w, c, f, k, (real)v.real(), (real)v.imag(),
                                 Z[k].real(), Z[k].imag());
                    }
                }
            }
        }
        mc::outcome(hash_values(got));
        mc::states(x.size() * frames);
        mc::trace();
    }

    static auto load(int layout, std::vector<rvec> const& x) -> buffer2<F>
    {
        auto b = make2<F>(layout, x.size(), x[0].size());
        for (std::size_t c = 0; c < x.size(); ++c) {
            for (std::size_t i = 0; i < x[c].size(); ++i) {
                b.at(c, i) = static_cast<F>(x[c][i]);
            }
        }
        return b;
    }
    static auto signal(std::size_t ch, std::size_t len, int salt) -> std::vector<rvec>
    {
        std::vector<rvec> x;
        for (std::size_t c = 0; c < ch; ++c) {
            x.push_back(dense(len, salt + int(c) * 2));
        }
        return x;
    }

    void run()
    {
        auto const maxf = std::size_t(mc::thorough() ? 16 : 9);
        std::vector<std::size_t> frames;
        for (std::size_t f = 1; f <= maxf; ++f) {
            frames.push_back(f);
        }
        if (!mc::thorough()) {
            frames.push_back(16);
        }
        for (auto frame : frames) {
            for (std::size_t overlap = 0; overlap < frame; ++overlap) {
                mc::check("stft", {id, long(frame), long(overlap)}, [&] {
                    std::size_t k = 0;
                    for (std::size_t transform : {frame, frame + 1, std::size_t(8), std::size_t(16), std::size_t(17)}) {
                        if (transform < frame) {
                            continue;
                        }
                        for (int w = 0; w < 4; ++w) {
                            // one plan for all lengths: reuse must not leak
                            auto plan = neo::fft::stft_plan<F, C>{options(frame, transform, overlap, w)};
                            for (std::size_t len = 1; len <= (mc::thorough() ? 100U : 40U); ++len, ++k) {
                                if (frame > 9 && !mc::thorough() && len % 3 != 0 && len < 30) {
                                    continue;
                                }
                                auto const x = signal(1 + k % 3, len, int(k % 5));
                                auto b       = load(int(k % 4), x);
                                auto const before = b.mem;
                                with_view2(int(k % 4), b, [&](auto v) { verify(plan(v), x, frame, transform, overlap, w, "stft_plan"); });
                                mc::require(b.mem == before, "stft changed its input");
                                mc::transition();
                            }
                        }
                    }
                    mc::sample("frame %zu overlap %zu: all transforms, windows, lengths", frame, overlap);
                });
                // every unit impulse
                if (frame <= 6) {
                    mc::check("impulse", {id, long(frame), long(overlap)}, [&] {
                        for (std::size_t len = 1; len <= 12; ++len) {
                            for (std::size_t j = 0; j < len; ++j) {
                                auto const x = std::vector<rvec>{basis(len, j)};
                                auto b       = load(0, x);
                                verify(neo::fft::stft(b.right(), options(frame, 8, overlap, 3)), x, frame, 8, overlap, 3, "stft");
                                mc::transition();
                            }
                        }
                    });
                }
            }
        }
        // frames, transforms, channels and signals far beyond the dense enumeration
        struct shape { std::size_t ch, len, frame, transform, overlap; };
        for (auto [ch, len, frame, transform, overlap] : {shape{1, 1000, 64, 64, 32}, {2, 500, 60, 128, 15}, {3, 700, 100, 100, 50}, {1, 257, 256, 256, 128}, {1, 256, 256, 512, 255}, {5, 300, 33, 64, 1},
                                                          {9, 70, 16, 16, 4}, {33, 20, 4, 8, 2}, {1, 3000, 8, 8, 0}, {2, 1100, 4, 4, 3}, {1, 40, 128, 128, 64}, {1, 600, 1, 2, 0}, {1, 520, 512, 512, 256}, {300, 5, 2, 4, 1},
                                                          {1, 70000, 256, 256, 0}, {1, 9000, 2, 4, 1}, {1, 4097, 2048, 2048, 0}, {1, 4096, 2048, 2048, 0}, {1, 4095, 2048, 2048, 0}, {1, 8193, 4096, 4096, 0}, {1, 1025, 1024, 2048, 0}, {2, 3073, 2048, 2048, 1024}, {1, 8194, 1024, 1024, 0}}) {
            for (int w = 0; w < 4; ++w) {
                mc::check("large", {id, long(ch), long(len), long(frame), w}, [&, ch = ch, len = len, frame = frame, transform = transform, overlap = overlap] {
                    if (len > 8000 && w != 3 && !mc::thorough()) {
                        return;
                    }
                    auto plan = neo::fft::stft_plan<F, C>{options(frame, transform, overlap, w)};
                    for (int rep = 0; rep < (len > 2000 ? 1 : 2); ++rep) {
                        auto const x = signal(ch, len, rep + 1);
                        auto b       = load((w + rep) % 4, x);
                        with_view2((w + rep) % 4, b, [&](auto v) { verify(plan(v), x, frame, transform, overlap, w, "stft_plan"); });
                        mc::transition();
                    }
                    mc::sample("%zu channels, %zu samples, frame %zu, transform %zu, overlap %zu", ch, len, frame, transform, overlap);
                });
            }
        }
        for (int e : {-60, -20, 20, 60}) {
            for (std::size_t frame : {1, 2, 5, 8, 16}) {
                mc::check("amplitude", {id, e, long(frame)}, [&, e = e, frame = frame] {
                    for (std::size_t len : {1, 7, 16, 33}) {
                        auto x = signal(2, len, 1);
                        for (auto& c : x) {
                            c = scaled(c, e);
                        }
                        auto b = load(0, x);
                        auto plan = neo::fft::stft_plan<F, C>{options(frame, frame, frame / 2, 3)};
                        verify(plan(b.right()), x, frame, frame, frame / 2, 3, "stft_plan (scaled signal)");
                        verify(nc::uniform_partition(b.right(), frame), x, frame, 2 * frame, 0, 0, "uniform_partition (scaled signal)");
                        mc::transition(2);
                    }
                });
            }
        }
        for (auto [ch, len, B] : {std::array<std::size_t, 3>{1, 1000, 64}, {2, 513, 128}, {1, 5000, 4}, {1, 30000, 64}, {6, 100, 32}, {40, 9, 2}, {1, 600, 512}, {1, 3, 256}, {1, 777, 48}}) {
            mc::check("partition-large", {id, long(ch), long(len), long(B)}, [&, ch = ch, len = len, B = B] {
                auto const x = signal(ch, len, 3);
                auto b       = load(0, x);
                verify(nc::uniform_partition(b.right(), B), x, B, 2 * B, 0, 0, "uniform_partition");
                mc::transition();
            });
        }
        for (std::size_t n : {1, 2, 4, 8, 16}) {
            mc::check("default", {id, long(n)}, [&] {
                for (std::size_t len = 1; len <= 40; ++len) {
                    auto const x = signal(2, len, 1);
                    auto b       = load(0, x);
                    verify(neo::fft::stft(b.right(), n), x, n, n, n / 2, 1, "stft(x, n)");
                    auto plan = neo::fft::stft_plan<F>{n};
                    verify(plan(b.right()), x, n, n, n / 2, 1, "stft_plan{n}");
                    mc::transition(2);
                }
            });
        }
#ifndef MC_MINIMAL
        // samples of another precision, integer samples, extents counted in int and std::uint8_t
        for (std::size_t frame = 1; frame <= 9; ++frame) {
            mc::check("other-types", {id, long(frame)}, [&] {
                using G = std::conditional_t<std::same_as<F, float>, double, float>;
                for (std::size_t overlap = 0; overlap < frame; ++overlap) {
                    auto plan = neo::fft::stft_plan<F, C>{options(frame, frame + frame % 3, overlap, 3)};
                    for (std::size_t len = 1; len <= 40; ++len) {
                        auto const ch = 1 + len % 3;
                        auto const x  = signal(ch, len, int(len % 5));
                        std::vector<G> g;
                        std::vector<F> f;
                        std::vector<short> s;
                        auto xs = x;
                        for (std::size_t c = 0; c < ch; ++c) {
                            for (std::size_t i = 0; i < len; ++i) {
                                g.push_back(G(x[c][i])), f.push_back(F(x[c][i]));
                                s.push_back(short(long((i * 7 + c * 3) % 23) - 11));
                                xs[c][i] = s.back();
                            }
                        }
                        auto const T = frame + frame % 3;
                        verify(plan(indexed::matrix<std::size_t>(static_cast<G const*>(g.data()), ch, len)), x, frame, T, overlap, 3, "stft_plan (samples of another precision)");
                        verify(plan(indexed::matrix<int>(static_cast<F const*>(f.data()), ch, len)), x, frame, T, overlap, 3, "stft_plan (int extents)");
                        verify(plan(indexed::matrix<std::uint8_t>(static_cast<F const*>(f.data()), ch, len)), x, frame, T, overlap, 3, "stft_plan (small extents)");
                        verify(plan(indexed::matrix<std::size_t>(static_cast<short const*>(s.data()), ch, len)), xs, frame, T, overlap, 3, "stft_plan (integer samples)");
                        verify(nc::uniform_partition(indexed::matrix<int>(static_cast<F const*>(f.data()), ch, len), frame), x, frame, 2 * frame, 0, 0, "uniform_partition (int extents)");
                        mc::transition(5);
                    }
                }
            });
        }
#endif
        for (std::size_t B : {1, 2, 3, 4, 5, 6, 7, 8, 16}) {
            mc::check("partition", {id, long(B)}, [&] {
                for (std::size_t len = 1; len <= 70; ++len) {
                    for (std::size_t ch = 1; ch <= 3; ++ch) {
                        auto const x = signal(ch, len, int(len % 7));
                        auto b       = load(int(len % 4), x);
                        with_view2(int(len % 4), b, [&](auto v) { verify(nc::uniform_partition(v, B), x, B, 2 * B, 0, 0, "uniform_partition"); });
                        mc::transition();
                    }
                }
                for (std::size_t len = 1; len <= 20; ++len) {
                    for (std::size_t j = 0; j < len; ++j) {
                        auto const x = std::vector<rvec>{basis(len, j)};
                        auto b       = load(0, x);
                        verify(nc::uniform_partition(b.right(), B), x, B, 2 * B, 0, 0, "uniform_partition");
                        mc::transition();
                    }
                }
            });
        }
    }
};

void run()
{
#if MC_PART == 0
    explorer<float>{0}.run();
#else
    explorer<double>{1}.run();
#endif
}

}  // namespace

MC_MAIN(run)
