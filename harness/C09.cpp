// MC-TITLE: Sparse convolution equals dense convolution of the masked filter
// MC-TECH: every keep/drop mask of small filters and every block word, compared with a long-double spectral model of the masked filter and with the dense convolver holding the masked filter
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: All masks of block 2 x 1, 2 and 3 partitions (2^3, 2^6, 2^9) and block 4 x 2 (2^10; thorough also 2x4 with 2^12 and 8x1, 16x1 with 2^9, 2^17 limited to 2^13); masks by position and by magnitude threshold (every threshold between two coefficient magnitudes, block 4 and 8, 1..4 partitions); filters with a coefficient that is itself zero; dense stream of 3P+2 blocks, impulse streams, keep-all against the convolution sum; sparse overlap-save and overlap-add; float/double; three large filters (up to 71820 coefficients) with three masks each against the dense convolver. The dense case is also run with signal and filter scaled by powers of two (list `amplitudes` in harness/convcommon.hpp).
#include "convcommon.hpp"

using namespace cc;

namespace {

/// spectral model of a partitioned convolver with arbitrary (conjugate-symmetric) filter spectra
struct reference
{
    std::size_t B, P;
    std::vector<vec> G;  // P half spectra
    bool save;
    std::vector<vec> line;  // most recent first
    rvec prev, tail;

    reference(std::size_t b, std::size_t p, std::vector<vec> g, bool s)
        : B{b}, P{p}, G{std::move(g)}, save{s}, line(p, vec(b + 1)), prev(b, 0), tail(b, 0)
    {}
    auto step(rvec const& x) -> rvec
    {
        vec w(2 * B, cplx{});
        for (std::size_t i = 0; i < B; ++i) {
            if (save) {
                w[i]     = prev[i];
                w[B + i] = x[i];
            } else {
                w[i] = x[i];
            }
        }
        prev         = x;
        auto const X = dft(w, -1);
        line.insert(line.begin(), vec(X.begin(), X.begin() + long(B) + 1));
        line.pop_back();
        vec Y(2 * B, cplx{});
        for (std::size_t p = 0; p < P; ++p) {
            for (std::size_t k = 0; k <= B; ++k) {
                Y[k] += line[p][k] * G[p][k];
            }
        }
        for (std::size_t k = 1; k < B; ++k) {
            Y[2 * B - k] = std::conj(Y[k]);
        }
        auto const y = dft(Y, +1);
        rvec out(B);
        for (std::size_t i = 0; i < B; ++i) {
            if (save) {
                out[i] = y[B + i].real() / real(2 * B);
            } else {
                out[i]  = y[i].real() / real(2 * B) + tail[i];
                tail[i] = y[B + i].real() / real(2 * B);
            }
        }
        return out;
    }
};

template<typename Sparse, typename Dense, typename F>
struct explorer
{
    using C = std::complex<F>;
    char const* name;
    long id;
    bool save;

    template<typename Keep>
    void one(std::size_t B, std::size_t P, rvec const& h, matrix<C> const& s, rvec const& x, Keep keep, bool all, std::string const& what)
    {
        auto sp = Sparse{};
        sp.filter(s.to_mdspan(), keep);
        auto masked = s;
        std::vector<vec> G(P, vec(B + 1));
        for (std::size_t p = 0; p < P; ++p) {
            for (std::size_t k = 0; k <= B; ++k) {
                if (!keep(p, k, s(p, k))) {
                    masked(p, k) = C{};
                }
                G[p][k] = lift(masked(p, k));
            }
        }
        auto de = Dense{};
        de.filter(masked.to_mdspan());
        auto ref       = reference{B, P, G, save};
        real gsum      = 0;
        for (auto const& g : G) {
            gsum += l1(g);
        }
        real peak = 0;
        for (auto v : x) {
            peak = std::max(peak, std::abs(v));
        }
        auto const tol = eps<F>() * real(64 + 16 * std::log2(double(2 * B))) * (gsum * peak + l2(x) * l2(h)) + 1e-60L;
        auto const y   = stream(x, h);
        std::vector<F> got;
        for (std::size_t t = 0; t < x.size() / B; ++t) {
            buffer<F> a{B}, d{B};
            rvec blk(B);
            for (std::size_t i = 0; i < B; ++i) {
                blk[i]  = x[t * B + i];
                a.at(i) = d.at(i) = static_cast<F>(blk[i]);
            }
            auto const r = ref.step(blk);
            process<F>(sp, a, false);
            process<F>(de, d, false);
            a.check_guards(name);
            for (std::size_t i = 0; i < B; ++i) {
                got.push_back(a.at(i));
                mc::require(dist(a.at(i), r[i]) <= tol, "%s B=%zu P=%zu %s: block %zu sample %zu is %Lg, the masked filter gives %Lg (tolerance %Lg)", name, B, P, what.c_str(), t, i, (real)a.at(i), r[i], tol);
                mc::require(dist(a.at(i), d.at(i)) <= tol, "%s B=%zu P=%zu %s: block %zu sample %zu is %Lg, the dense convolver gives %Lg", name, B, P, what.c_str(), t, i, (real)a.at(i), (real)d.at(i));
                if (all) {
                    mc::require(dist(a.at(i), y[t * B + i]) <= tol, "%s B=%zu P=%zu %s: block %zu sample %zu is %Lg, the convolution sum gives %Lg", name, B, P, what.c_str(), t, i, (real)a.at(i), y[t * B + i]);
                }
            }
        }
        mc::outcome(hash_values(got));
        mc::states(x.size() / B);
        mc::trace();
    }

    void masks(std::size_t B, std::size_t P, unsigned bits)
    {
        auto const h = dense(B * P, 3);
        auto const s = partition<C>(h, B, P);
        auto const n = std::min<std::size_t>(P * (B + 1), bits);
        auto const x = dense((2 * P + 3) * B, 1);
        auto const total = std::uint64_t(1) << n;
        for (std::uint64_t base = 0; base < total; base += 64) {
            mc::check("masks", {id, long(save), long(B), long(P), long(base)}, [&] {
                for (auto m = base; m < std::min(total, base + 64); ++m) {
                    // bits above n (only when the mask space is cut off) repeat the low ones
                    auto keep = [&](std::size_t r, std::size_t c, C) { return bit(m, (r * (B + 1) + c) % n); };
                    one(B, P, h, s, x, keep, m == total - 1, mc::format("mask %lx", m));
                }
                mc::sample("%s: masks %lu.. of %zux%zu", name, base, P, B + 1);
            });
        }
    }

    /// a filter too large for the spectral model: the sparse convolver against the dense one holding the masked filter
    void large(std::size_t B, std::size_t P, std::size_t blocks)
    {
        mc::check("large", {id, long(save), long(B), long(P)}, [&] {
            auto s = matrix<C>{P, B + 1};
            for (std::size_t p = 0; p < P; ++p) {
                for (std::size_t k = 0; k <= B; ++k) {
                    auto const v = long((p * 31 + k * 17 + 5) % 257) - 128;
                    s(p, k)      = C{F(v) / F(4096), (k == 0 || k == B) ? F(0) : F(128 - long((p * 13 + k * 29) % 255)) / F(4096)};
                }
            }
            for (int kind = 0; kind < 3; ++kind) {
                auto keep = [&](std::size_t r, std::size_t c, C) { return kind == 0 || (kind == 1 ? (r + c) % 5 != 0 : c % 2 == r % 2); };
                auto sp   = Sparse{};
                auto de   = Dense{};
                sp.filter(s.to_mdspan(), keep);
                auto masked = s;
                real gsum   = 0;
                for (std::size_t p = 0; p < P; ++p) {
                    for (std::size_t k = 0; k <= B; ++k) {
                        if (!keep(p, k, s(p, k))) {
                            masked(p, k) = C{};
                        }
                        gsum += std::abs(lift(masked(p, k)));
                    }
                }
                de.filter(masked.to_mdspan());
                auto const tol = eps<F>() * 64 * gsum;
                for (std::size_t t = 0; t < blocks; ++t) {
                    buffer<F> a{B}, d{B};
                    auto const x = t < 3 ? dense(B, int(t)) : rvec(B, 0.0L);
                    for (std::size_t i = 0; i < B; ++i) {
                        a.at(i) = d.at(i) = static_cast<F>(x[i]);
                    }
                    process<F>(sp, a, false);
                    process<F>(de, d, false);
                    for (std::size_t i = 0; i < B; ++i) {
                        mc::require(dist(a.at(i), d.at(i)) <= tol, "%s B=%zu P=%zu kind %d: block %zu sample %zu is %Lg, the dense convolver gives %Lg", name, B, P, kind, t, i, (real)a.at(i), (real)d.at(i));
                    }
                }
                mc::states(blocks);
                mc::trace();
            }
        });
    }

    void run()
    {
        large(512, 140, 146);
        large(128, 20, 44);
        large(4, 300, 310);
        for (std::size_t P : {1, 2, 3}) {
            masks(2, P, 20);
        }
        masks(4, 1, 20);
        masks(4, 2, 20);
        if (mc::thorough()) {
            masks(2, 4, 20);
            masks(8, 1, 20);
            masks(16, 1, 13);
            masks(4, 3, 15);
        }
        for (std::size_t B : {2, 8}) {
            for (std::size_t P = 1; P <= 3; ++P) {
                mc::check("amplitude", {id, long(save), long(B), long(P)}, [&] {
                    for (auto [ex, eh] : amplitudes) {
                        auto const h = scaled(dense(B * P, 3), eh);
                        auto const s = partition<C>(h, B, P);
                        auto const x = scaled(dense((3 * P + 2) * B, 2), ex);
                        one(B, P, h, s, x, [](auto, auto, C) { return true; }, true, mc::format("keep all, h*2^%d x*2^%d", eh, ex));
                        one(B, P, h, s, x, [](std::size_t r, std::size_t c, C) { return (r + c) % 2 == 0; }, false, mc::format("even positions, h*2^%d x*2^%d", eh, ex));
                    }
                });
            }
        }
        for (std::size_t B : {4, 8}) {
            for (std::size_t P = 1; P <= 4; ++P) {
                mc::check("threshold", {id, long(save), long(B), long(P)}, [&] {
                    for (int variant = 0; variant < 2; ++variant) {
                        auto h = dense(B * P, 3 + variant);
                        if (variant == 1) {
                            for (std::size_t i = 0; i < B; ++i) {
                                h[(P - 1) * B + i] = i == 0 ? 0.5L : 0.0L;  // flat spectrum: every magnitude equal
                            }
                        }
                        auto s = partition<C>(h, B, P);
                        std::vector<real> mags{0.0L, 1e9L};
                        for (std::size_t p = 0; p < P; ++p) {
                            for (std::size_t k = 0; k <= B; ++k) {
                                mags.push_back(std::abs(lift(s(p, k))) + 1e-4L);
                            }
                        }
                        for (auto t : mags) {
                            auto const x = dense((3 * P + 2) * B, 2);
                            auto above   = [&](auto, auto, C v) { return std::abs(lift(v)) > t; };
                            auto below   = [&](auto, auto, C v) { return std::abs(lift(v)) <= t; };
                            one(B, P, h, s, x, above, false, mc::format("|v| > %Lg", t));
                            one(B, P, h, s, x, below, false, mc::format("|v| <= %Lg", t));
                        }
                        for (std::size_t i = 0; i < (P + 1) * B; ++i) {
                            auto odd = [&](std::size_t r, std::size_t c, C) { return (r + c) % 2 == 1; };
                            one(B, P, h, s, basis((2 * P + 2) * B, i), odd, false, mc::format("odd positions, impulse %zu", i));
                            one(B, P, h, s, basis((2 * P + 2) * B, i), [](auto, auto, C) { return true; }, true, mc::format("keep all, impulse %zu", i));
                        }
                    }
                });
            }
        }
    }
};

template<typename F>
void all(long id)
{
    using C = std::complex<F>;
    explorer<nc::sparse_upols_convolver<C>, nc::upols_convolver<C>, F>{"sparse_upols", id, true}.run();
    explorer<nc::sparse_upola_convolver<C>, nc::upola_convolver<C>, F>{"sparse_upola", id, false}.run();
}

void run()
{
#if MC_PART == 0
    all<float>(0);
#else
    all<double>(1);
#endif
}

}  // namespace

MC_MAIN(run)
