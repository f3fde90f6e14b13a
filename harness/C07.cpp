// MC-TITLE: Streaming convolution output does not depend on how input is chunked
// MC-TECH: every composition of the stream length into chunks of at least one block, each chunk compared with the convolution sum
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-BOUNDS: Quick: block sizes 1,2,4,8 and 1..4 partitions; every chunking (composition into parts >= block size) of streams of 11, 17, 27 and 44 samples (up to about 1000 chunkings each), dense stream; the same with an impulse at every position over fewer chunkings; contiguous and strided chunks; every pair of six kinds of blocks, filters whose partitions differ in level by 2^12 and 2^20 each and bursts of different level, in every constant chunk size from one block to two blocks and one sample, each output block held to the rounding error of the blocks and partitions it depends on; float/double; 8 longer shapes (blocks to 256, up to 33 partitions) with alternating pairs of chunk sizes. Thorough: longer streams (up to about 20000 chunkings). The dense case is also run with signal and filter scaled by powers of two (list `amplitudes` in harness/convcommon.hpp).
#include "convcommon.hpp"

using namespace cc;

namespace {

template<typename F>
struct explorer
{
    using C = std::complex<F>;
    long id;

    void one(std::size_t B, std::size_t P, rvec const& h, matrix<C> const& s, rvec const& x, rvec const& y, std::vector<std::size_t> const& parts, bool strided)
    {
        auto conv = nc::upola_convolver_v2<C>{};
        conv.filter(s.to_mdspan());
        auto const gtol = tolerance<F>(x, h, 2 * B);
        auto const ltol = local_tolerance<F>(x, h, B);
        std::size_t pos = 0;
        std::vector<F> got;
        for (auto n : parts) {
            buffer<F> b{n, strided ? std::size_t(3) : std::size_t(1)};
            for (std::size_t i = 0; i < n; ++i) {
                b.at(i) = static_cast<F>(x[pos + i]);
            }
            process<F>(conv, b, strided);
            b.check_guards("chunk");
            for (std::size_t i = 0; i < n; ++i) {
                got.push_back(b.at(i));
                if (dist(b.at(i), y[pos + i]) > std::min(gtol, ltol[(pos + i) / B])) {
                    std::string l;
                    for (auto q : parts) {
                        l += " " + std::to_string(q);
                    }
                    mc::fail("B=%zu P=%zu chunks%s: sample %zu is %Lg, linear convolution gives %Lg", B, P, l.c_str(), pos + i, (real)b.at(i), y[pos + i]);
                }
            }
            pos += n;
        }
        mc::outcome(hash_values(got));
        mc::states(parts.size());
        mc::trace();
    }

    template<typename Fn>
    static void compositions(std::size_t n, std::size_t min, std::vector<std::size_t>& cur, Fn fn)
    {
        if (n == 0) {
            fn(cur);
            return;
        }
        for (std::size_t k = min; k <= n; ++k) {
            if (n - k != 0 && n - k < min) {
                continue;
            }
            cur.push_back(k);
            compositions(n - k, min, cur, fn);
            cur.pop_back();
        }
    }

    void run()
    {
        struct cfg
        {
            std::size_t B, quick, thorough, impulse;
        };
        for (auto c : {cfg{1, 11, 14, 8}, cfg{2, 17, 22, 11}, cfg{4, 27, 37, 18}, cfg{8, 44, 58, 29}}) {
            for (std::size_t P = 1; P <= 4; ++P) {
                auto const h = dense(c.B * P, 3);
                auto const s = partition<C>(h, c.B, P);
                auto const N = mc::thorough() ? c.thorough : c.quick;
                for (std::size_t first = c.B; first <= N; ++first) {
                    if (N - first != 0 && N - first < c.B) {
                        continue;
                    }
                    mc::check("chunks", {id, long(c.B), long(P), long(first)}, [&] {
                        auto const x = dense(N, 1);
                        auto const y = stream(x, h);
                        std::vector<std::size_t> cur{first};
                        std::size_t k = 0;
                        compositions(N - first, c.B, cur, [&](std::vector<std::size_t> const& parts) { one(c.B, P, h, s, x, y, parts, k++ % 5 == 4); });
                        mc::sample("B=%zu P=%zu: all chunkings of %zu samples starting with %zu", c.B, P, N, first);
                    });
                }
                for (std::size_t i = 0; i < c.impulse; ++i) {
                    mc::check("impulse", {id, long(c.B), long(P), long(i)}, [&] {
                        auto const x = basis(c.impulse, i);
                        auto const y = stream(x, h);
                        std::vector<std::size_t> cur;
                        compositions(c.impulse, c.B, cur, [&](std::vector<std::size_t> const& parts) { one(c.B, P, h, s, x, y, parts, false); });
                    });
                }
                mc::check("kinds", {id, long(c.B), long(P)}, [&] {
                    // every pair of block kinds, and filters and bursts whose level changes
                    std::vector<std::pair<rvec, rvec>> cases;
                    for (std::size_t w = 0; w < block_kinds * block_kinds; ++w) {
                        auto x       = block_of_kind(c.B, w % block_kinds, 4);
                        auto const z = block_of_kind(c.B, w / block_kinds, 5);
                        x.insert(x.end(), z.begin(), z.end());
                        x.resize(c.impulse + c.B, 0.0L);
                        cases.emplace_back(x, h);
                    }
                    for (int step : {-12, 12, -20}) {
                        for (std::size_t i = 0; i < 2 * c.B; ++i) {
                            cases.emplace_back(basis((2 * P + 3) * c.B, i), graded(h, c.B, step));
                        }
                        rvec v;
                        for (int level : {0, -1, 1, 0, 2}) {
                            auto const loud = scaled(dense(c.B, level + 4), level * step);
                            v.insert(v.end(), loud.begin(), loud.end());
                            v.resize(v.size() + (P + 2) * c.B, 0.0L);
                        }
                        cases.emplace_back(v, h);
                    }
                    for (auto const& [x, g] : cases) {
                        auto const sg = partition<C>(g, c.B, P);
                        auto const y  = stream(x, g);
                        for (std::size_t n = c.B; n <= 2 * c.B + 1; ++n) {
                            std::vector<std::size_t> parts;
                            auto left = x.size();
                            while (left >= n + c.B) {
                                parts.push_back(n);
                                left -= n;
                            }
                            parts.push_back(left);
                            one(c.B, P, g, sg, x, y, parts, false);
                        }
                    }
                });
                mc::check("amplitude", {id, long(c.B), long(P)}, [&] {
                    for (auto [ex, eh] : amplitudes) {
                        auto const hs = scaled(h, eh);
                        auto const ss = partition<C>(hs, c.B, P);
                        auto const x  = scaled(dense(c.impulse, 1), ex);
                        auto const y  = stream(x, hs);
                        std::vector<std::size_t> cur;
                        compositions(c.impulse, c.B, cur, [&](std::vector<std::size_t> const& parts) { one(c.B, P, hs, ss, x, y, parts, false); });
                    }
                });
                for (std::size_t j = 0; j < c.B * P; ++j) {
                    mc::check("filter_basis", {id, long(c.B), long(P), long(j)}, [&] {
                        auto const hj = basis(c.B * P, j);
                        auto const sj = partition<C>(hj, c.B, P);
                        // several times around the delay line, in chunks of every single size
                        auto const x = dense((3 * P + 2) * c.B, 2);
                        auto const y = stream(x, hj);
                        for (std::size_t n = c.B; n <= 3 * c.B; ++n) {
                            std::vector<std::size_t> parts;
                            auto left = x.size();
                            while (left >= 2 * n) {
                                parts.push_back(n);
                                left -= n;
                            }
                            parts.push_back(left);
                            one(c.B, P, hj, sj, x, y, parts, false);
                        }
                    });
                }
            }
        }
    }
};

// longer blocks and more partitions: every constant chunk size between one and three blocks, and alternating pairs
template<typename F>
void large(long id)
{
    using C = std::complex<F>;
    struct cfg
    {
        std::size_t B, P;
    };
    auto ex = explorer<F>{id};
    for (auto c : {cfg{16, 3}, cfg{32, 2}, cfg{64, 3}, cfg{128, 1}, cfg{256, 2}, cfg{2, 9}, cfg{4, 17}, cfg{8, 33}}) {
        for (std::size_t n = c.B; n <= 3 * c.B; n += std::max<std::size_t>(1, c.B / 16)) {
            mc::check("large", {id, long(c.B), long(c.P), long(n)}, [&] {
                auto const h = dense(c.B * c.P, 3);
                auto const s = partition<C>(h, c.B, c.P);
                auto const x = dense((2 * c.P + 8) * c.B, 2);
                auto const y = stream(x, h);
                for (std::size_t m : {n, c.B, c.B + 1, 2 * c.B - 1, 3 * c.B + c.B / 2}) {
                    std::vector<std::size_t> parts;
                    auto left = x.size();
                    for (std::size_t k = 0; left > 0; ++k) {
                        auto const want = k % 2 == 0 ? n : m;
                        auto const take = left >= want + c.B ? want : left;
                        parts.push_back(take);
                        left -= take;
                    }
                    ex.one(c.B, c.P, h, s, x, y, parts, false);
                }
            });
        }
    }
}

void run()
{
    large<float>(0);
    large<double>(1);
    explorer<float>{0}.run();
    explorer<double>{1}.run();
}

}  // namespace

MC_MAIN(run)
