// MC-TITLE: Partitioned streaming convolution equals linear convolution
// MC-TECH: every convolver x block size x partition count x impulse response basis vector x block sequence word, each output block compared with the convolution sum
// MC-QUICK: v3 sse2
// MC-THOROUGH: neon gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Quick: block sizes 2,4,8,16, 1..5 partitions; impulse responses = all basis vectors, a dense one, and one ending inside a partition; input = an impulse at every position of P+2 blocks, dense streams of 3P+2 blocks, and all words over {silent, dense, last-sample} blocks of length 2P+1 (up to 3^5), all words of 3 (2 for blocks of 16) over six kinds of blocks; filters whose partitions differ in level by 2^12 and 2^20 each and bursts of different level separated by silence, each output block held to the rounding error of the blocks and partitions it depends on; contiguous and strided blocks; 5 convolvers (the arbitrary-chunk one fed whole blocks), float/double; filter spectra from the model and from the library's own partitioning; 11 longer shapes (blocks to 1024, up to 260 partitions) with dense streams and selected impulses; every pair of five shapes interleaved, with a copy taken after every step. Thorough: block size to 32, 8 partitions, words to 3^7. The dense case is also run with signal and filter scaled by powers of two (list `amplitudes` in harness/convcommon.hpp).
#include "convcommon.hpp"

using namespace cc;

namespace {

template<typename Conv, typename F, typename C>
struct explorer
{
    char const* name;
    long id;

    void stream_case(std::size_t B, std::size_t P, rvec const& h, rvec const& x, bool strided, std::string const& what, matrix<C> const& spectra)
    {
        auto conv = Conv{};
        conv.filter(spectra.to_mdspan());
        auto const y   = stream(x, h);
        auto const gtol = tolerance<F>(x, h, 2 * B);
        auto const ltol = local_tolerance<F>(x, h, B);
        std::vector<F> got;
        buffer<F> b{B, strided ? std::size_t(2) : std::size_t(1)};
        for (std::size_t t = 0; t < x.size() / B; ++t) {
            auto const tol = std::min(gtol, ltol[t]);
            for (std::size_t i = 0; i < B; ++i) {
                b.at(i) = static_cast<F>(x[t * B + i]);
            }
            process<F>(conv, b, strided);
            b.check_guards(name);
            for (std::size_t i = 0; i < B; ++i) {
                got.push_back(b.at(i));
                if (dist(b.at(i), y[t * B + i]) > tol) {
                    mc::fail("%s B=%zu P=%zu %s: block %zu sample %zu is %Lg, linear convolution gives %Lg (tolerance %Lg)", name, B, P, what.c_str(), t, i, (real)b.at(i), y[t * B + i], tol);
                }
            }
            mc::state(mc::hasher{}.bytes(name, std::strlen(name)).add(id).add(B).add(P).add(strided).bytes(what.data(), what.size()).add(t).h);
        }
        mc::outcome(hash_values(got));
        mc::trace();
    }

    void run()
    {
        for (std::size_t B : {2, 4, 8, 16, 32}) {
            if (B == 32 && !mc::thorough()) {
                continue;
            }
            for (std::size_t P = 1; P <= (mc::thorough() ? 8U : 5U); ++P) {
                // impulses against every filter basis vector
                mc::check(name, {id, 0, long(B), long(P)}, [&] {
                    auto const N = B * P;
                    for (std::size_t j = 0; j < N; ++j) {
                        auto const h = basis(N, j);
                        auto const s = partition<C>(h, B, P);
                        if (j % B == 0 || j % B == B - 1 || B <= 4) {
                            stream_case(B, P, h, dense((2 * P + 2) * B, 1), false, mc::format("h=e%zu x=dense", j), s);
                        }
                    }
                    auto const h = dense(N, 3);
                    auto const s = partition<C>(h, B, P);
                    for (std::size_t i = 0; i < (P + 2) * B; ++i) {
                        stream_case(B, P, h, basis((2 * P + 3) * B, i), i % 2 == 1, mc::format("h=dense x=e%zu", i), s);
                    }
                    stream_case(B, P, h, dense((3 * P + 2) * B, 2), false, "h=dense x=dense", s);
                    stream_case(B, P, h, dense((3 * P + 2) * B, 2), true, "h=dense x=dense strided", s);
                    for (auto [ex, eh] : amplitudes) {
                        auto const hs = scaled(h, eh);
                        stream_case(B, P, hs, scaled(dense((3 * P + 2) * B, 2), ex), false, mc::format("h=dense*2^%d x=dense*2^%d", eh, ex), partition<C>(hs, B, P));
                    }
                    mc::sample("%s B=%zu P=%zu: all impulse responses e0..e%zu, all input impulses", name, B, P, N - 1);
                });
                // every word over three kinds of blocks
                mc::check(name, {id, 1, long(B), long(P)}, [&] {
                    auto len = std::min<std::size_t>(2 * P + 1, mc::thorough() ? 7 : 5);
                    if (B > 8) {
                        len = std::min<std::size_t>(len, 4);
                    }
                    auto const h = dense(B * P, 3);
                    auto const s = partition<C>(h, B, P);
                    std::size_t total = 1;
                    for (std::size_t i = 0; i < len; ++i) {
                        total *= 3;
                    }
                    for (std::size_t w = 0; w < total; ++w) {
                        rvec x;
                        auto r = w;
                        std::string label;
                        for (std::size_t t = 0; t < len + P; ++t) {  // P more silent blocks flush the line
                            auto const letter = t < len ? r % 3 : 0;
                            r /= 3;
                            auto const blk = letter == 0 ? rvec(B, 0.0L) : (letter == 1 ? dense(B, int(t) + 4) : basis(B, B - 1));
                            x.insert(x.end(), blk.begin(), blk.end());
                            label += "0d1"[letter];
                        }
                        stream_case(B, P, h, x, false, "word " + label, s);
                    }
                });
                // shorter words over every kind of block
                mc::check(name, {id, 5, long(B), long(P)}, [&] {
                    auto const len = std::size_t(B > 8 ? 2 : 3);
                    auto const h   = dense(B * P, 3);
                    auto const s   = partition<C>(h, B, P);
                    std::size_t total = 1;
                    for (std::size_t i = 0; i < len; ++i) {
                        total *= block_kinds;
                    }
                    for (std::size_t w = 0; w < total; ++w) {
                        rvec x;
                        auto r = w;
                        for (std::size_t t = 0; t < len + P + 1; ++t, r /= block_kinds) {
                            auto const blk = block_of_kind(B, t < len ? r % block_kinds : 0, int(t) + 4);
                            x.insert(x.end(), blk.begin(), blk.end());
                        }
                        stream_case(B, P, h, x, false, mc::format("kinds %zu", w), s);
                    }
                });
                // levels that change over the filter or over the stream: every passage at its own precision
                mc::check(name, {id, 6, long(B), long(P)}, [&] {
                    for (int step : {-12, 12, -20}) {
                        auto const h = graded(dense(B * P, 3), B, step);
                        auto const s = partition<C>(h, B, P);
                        for (std::size_t i = 0; i < 2 * B; ++i) {
                            stream_case(B, P, h, basis((2 * P + 3) * B, i), false, mc::format("h graded by 2^%d x=e%zu", step, i), s);
                        }
                        auto const hd = dense(B * P, 5);
                        auto const x  = [&] {
                            rvec v;
                            for (int level : {0, -1, 1, 0, 2}) {
                                auto const loud = scaled(dense(B, level + 4), level * step);
                                v.insert(v.end(), loud.begin(), loud.end());
                                v.resize(v.size() + (P + 2) * B, 0.0L);
                            }
                            return v;
                        }();
                        stream_case(B, P, hd, x, false, mc::format("bursts graded by 2^%d", step), partition<C>(hd, B, P));
                    }
                });
                // through the library's own partitioning, impulse response ending anywhere in the last partition
                mc::check(name, {id, 2, long(B), long(P)}, [&] {
                    for (std::size_t len = (P - 1) * B + 1; len <= P * B; ++len) {
                        auto const h = dense(len, 5);
                        auto ir      = Kokkos::Experimental::mdarray<F, ext2>{1, len};
                        for (std::size_t i = 0; i < len; ++i) {
                            ir(0, i) = static_cast<F>(h[i]);
                        }
                        auto parts = nc::uniform_partition(ir.to_mdspan(), B);
                        mc::require(parts.extent(0) == 1 && parts.extent(1) >= P && parts.extent(2) == B + 1, "uniform_partition of %zu samples into blocks of %zu: shape %zu %zu %zu", len, B,
                                    std::size_t(parts.extent(0)), std::size_t(parts.extent(1)), std::size_t(parts.extent(2)));
                        auto s = matrix<C>{parts.extent(1), B + 1};
                        for (std::size_t p = 0; p < parts.extent(1); ++p) {
                            for (std::size_t k = 0; k <= B; ++k) {
                                s(p, k) = mk<C>(lift(parts(0, p, k)));
                            }
                        }
                        stream_case(B, P, h, dense((2 * P + 3) * B, 6), false, mc::format("uniform_partition of %zu samples", len), s);
                    }
                });
            }
        }
    }
};

// long blocks and many partitions: dense streams and a few impulses
template<typename Conv, typename F, typename C>
void large(char const* name, long id)
{
    struct cfg
    {
        std::size_t B, P;
    };
    auto ex = explorer<Conv, F, C>{name, id};
    for (auto c : {cfg{32, 3}, cfg{64, 5}, cfg{128, 2}, cfg{256, 3}, cfg{512, 2}, cfg{1024, 1}, cfg{4, 20}, cfg{8, 70}, cfg{16, 33}, cfg{2, 130}, cfg{2, 260}}) {
        mc::check(name, {id, 3, long(c.B), long(c.P)}, [&] {
            auto const N = c.B * c.P;
            auto const h = dense(N - c.B / 2, 3);
            auto const s = partition<C>(h, c.B, c.P);
            ex.stream_case(c.B, c.P, h, dense((2 * c.P + 2) * c.B, 2), false, "long: h=dense x=dense", s);
            for (std::size_t i : {std::size_t(0), c.B - 1, c.B, (c.P * c.B) / 2 + 1, (c.P + 1) * c.B - 1}) {
                ex.stream_case(c.B, c.P, h, basis((2 * c.P + 2) * c.B, i), i % 2 == 1, mc::format("long: h=dense x=e%zu", i), s);
            }
            for (std::size_t j : {c.B - 1, N / 2, N - 1}) {
                auto const hj = basis(N, j);
                ex.stream_case(c.B, c.P, hj, dense((c.P + 2) * c.B, 1), false, mc::format("long: h=e%zu x=dense", j), partition<C>(hj, c.B, c.P));
            }
        });
    }
}

// two convolvers of every pair of shapes, fed alternately, and a copy taken in the middle of the stream: instances
// share nothing
template<typename Conv, typename F, typename C>
void instances(char const* name, long id)
{
    struct cfg
    {
        std::size_t B, P;
    };
    static constexpr cfg shapes[] = {{2, 1}, {2, 3}, {4, 2}, {8, 2}, {8, 4}};
    struct run
    {
        std::size_t B;
        rvec x, h, y;
        Conv conv{};
        std::size_t pos{0};
        run(cfg c, int salt) : B{c.B}, x(dense(c.B * 24, salt)), h(dense(c.B * c.P, salt + 1)), y(stream(x, h))
        {
            auto const s = partition<C>(h, c.B, c.P);
            conv.filter(s.to_mdspan());
        }
        void step(char const* name, char const* who)
        {
            buffer<F> b{B};
            for (std::size_t i = 0; i < B; ++i) {
                b.at(i) = static_cast<F>(x[pos + i]);
            }
            process<F>(conv, b, false);
            for (std::size_t i = 0; i < B; ++i) {
                mc::require(dist(b.at(i), y[pos + i]) <= tolerance<F>(x, h, 2 * B), "%s, %s: sample %zu is %Lg, linear convolution gives %Lg", name, who, pos + i, (real)b.at(i), y[pos + i]);
            }
            pos += B;
        }
    };
    for (int a = 0; a < 5; ++a) {
        for (int b = 0; b < 5; ++b) {
            mc::check(name, {id, 4, a, b}, [&] {
                for (std::size_t copy_at = 0; copy_at < 8; ++copy_at) {
                    auto p = run{shapes[a], 3};
                    auto q = run{shapes[b], 7};
                    for (std::size_t t = 0; t < 10; ++t) {
                        p.step(name, "first of two interleaved convolvers");
                        if (t % 3 != 1) {
                            q.step(name, "second of two interleaved convolvers");
                        }
                        if (t == copy_at) {
                            auto c  = p;  // the copy goes its own way, with different blocks
                            c.x     = p.x;
                            for (std::size_t i = c.pos; i < c.x.size(); ++i) {
                                c.x[i] = -c.x[i] + 0.25L;
                            }
                            c.y = stream(c.x, c.h);
                            for (int k = 0; k < 5; ++k) {
                                c.step(name, "copy taken in mid-stream");
                            }
                        }
                    }
                    mc::states(20);
                    mc::trace(3);
                }
            });
        }
    }
}

template<typename F, typename C>
void all(long id)
{
    explorer<nc::upols_convolver<C>, F, C>{"upols", id}.run();
    explorer<nc::upola_convolver<C>, F, C>{"upola", id}.run();
    explorer<nc::split_upols_convolver<C>, F, C>{"split_upols", id}.run();
    explorer<nc::split_upola_convolver<C>, F, C>{"split_upola", id}.run();
    explorer<nc::upola_convolver_v2<C>, F, C>{"chunked_upola", id}.run();
    large<nc::upols_convolver<C>, F, C>("upols", id);
    large<nc::upola_convolver<C>, F, C>("upola", id);
    large<nc::split_upols_convolver<C>, F, C>("split_upols", id);
    large<nc::split_upola_convolver<C>, F, C>("split_upola", id);
    large<nc::upola_convolver_v2<C>, F, C>("chunked_upola", id);
    instances<nc::upols_convolver<C>, F, C>("upols", id);
    instances<nc::upola_convolver<C>, F, C>("upola", id);
    instances<nc::split_upols_convolver<C>, F, C>("split_upols", id);
    instances<nc::split_upola_convolver<C>, F, C>("split_upola", id);
    instances<nc::upola_convolver_v2<C>, F, C>("chunked_upola", id);
}

void run()
{
#if MC_PART == 0
    all<float, std::complex<float>>(0);
#else
    all<double, std::complex<double>>(1);
#endif
}

}  // namespace

MC_MAIN(run)
