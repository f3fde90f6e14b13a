// MC-TITLE: Overlap-add and overlap-save block processors filter streams correctly
// MC-TECH: every block size x filter length x filter/input basis vector, every output block compared with the convolution sum
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Block sizes 1..9, 16, 17 and filter lengths 1..12, 16, 17, 31 (thorough: 1..20 x 1..36); filters = every basis vector and a dense one; streams = an impulse at every position of the blocks a filter tail can reach plus two, dense streams, all words over {silent, dense} of 5 blocks (thorough 8); every pair of six kinds of blocks and bursts of very different level, each output block held to the rounding error of what is in its window; identity callback on dense streams; contiguous and strided blocks; float/double; 72 longer shapes (blocks to 512, filters to 1543) with selected impulses and dense streams. The dense case is also run with signal and filter scaled by powers of two (list `amplitudes` in harness/convcommon.hpp).
#include "convcommon.hpp"

using namespace cc;

namespace {

template<typename Proc, typename F>
struct explorer
{
    using C = std::complex<F>;
    char const* name;
    long id;

    void one(std::size_t B, std::size_t L, rvec const* h, rvec const& x, bool strided, std::string const& what)
    {
        auto proc = Proc{B, L};
        mc::require(proc.block_size() == B && proc.filter_size() == L, "%s{%zu,%zu} reports block %zu filter %zu", name, B, L, std::size_t(proc.block_size()), std::size_t(proc.filter_size()));
        auto const K = std::size_t(proc.transform_size());
        mc::require(K >= B + L - 1, "%s{%zu,%zu}: transform of %zu points cannot hold a filtered block", name, B, L, K);
        vec H;
        if (h != nullptr) {
            vec z(K, cplx{});
            for (std::size_t i = 0; i < L; ++i) {
                z[i] = (*h)[i];
            }
            H = dft(z, -1);
        }
        auto const hh  = h != nullptr ? *h : basis(1, 0);
        auto const y   = stream(x, hh);
        auto const gtol = tolerance<F>(x, hh, K) * 2;
        buffer<F> b{B, strided ? std::size_t(2) : std::size_t(1)};
        std::vector<F> got;
        for (std::size_t t = 0; t < x.size() / B; ++t) {
            // only what is still in the window can disturb this block
            auto const back = std::min((t + 1) * B, K + 2 * B);
            auto const win  = rvec(x.begin() + long((t + 1) * B - back), x.begin() + long((t + 1) * B));
            auto const tol  = std::min(gtol, tolerance<F>(win, hh, K) * 2);
            for (std::size_t i = 0; i < B; ++i) {
                b.at(i) = static_cast<F>(x[t * B + i]);
            }
            int calls = 0;
            auto cb   = [&](auto spectrum) {
                ++calls;
                mc::require(spectrum.extent(0) == K / 2 + 1, "%s{%zu,%zu}: %zu bins presented for a %zu-point transform", name, B, L, std::size_t(spectrum.extent(0)), K);
                if (h != nullptr) {
                    for (std::size_t k = 0; k < spectrum.extent(0); ++k) {
                        auto const v = lift(C{spectrum[k]}) * H[k];
                        spectrum[k]  = mk<C>(v);
                    }
                }
            };
            if (strided) {
                proc(b.strided(), cb);
            } else {
                proc(b.flat(), cb);
            }
            mc::transition();
            b.check_guards(name);
            mc::require(calls == 1, "%s: callback ran %d times for one block", name, calls);
            for (std::size_t i = 0; i < B; ++i) {
                got.push_back(b.at(i));
                if (dist(b.at(i), y[t * B + i]) > tol) {
                    mc::fail("%s{%zu,%zu} %s: block %zu sample %zu is %Lg, expected %Lg (tolerance %Lg)", name, B, L, what.c_str(), t, i, (real)b.at(i), y[t * B + i], tol);
                }
            }
        }
        mc::outcome(hash_values(got));
        mc::states(x.size() / B);
        mc::trace();
    }

    void run()
    {
        std::vector<std::size_t> Bs, Ls;
        for (std::size_t i = 1; i <= (mc::thorough() ? 20U : 9U); ++i) {
            Bs.push_back(i);
        }
        for (std::size_t i = 1; i <= (mc::thorough() ? 36U : 12U); ++i) {
            Ls.push_back(i);
        }
        if (!mc::thorough()) {
            Bs.insert(Bs.end(), {16, 17});
            Ls.insert(Ls.end(), {16, 17, 31});
        }
        for (std::size_t B : {32, 33, 64, 100, 128, 255, 256, 512}) {
            for (std::size_t L : {std::size_t(1), B / 2, B - 1, B, B + 1, B + 2, 2 * B - 1, 2 * B + 1, 3 * B + 7}) {
                mc::check(name, {id, long(B), long(L), 1}, [&] {
                    auto const reach = (B + L + B - 2) / B;
                    auto const T     = reach + 3;
                    auto const hd    = dense(L, 3);
                    for (std::size_t j : {std::size_t(0), L / 2, L - 1}) {
                        auto const h = basis(L, j);
                        one(B, L, &h, dense(T * B, 1), false, mc::format("h=e%zu x=dense", j));
                    }
                    for (std::size_t i : {std::size_t(0), B - 1}) {
                        one(B, L, &hd, basis(T * B, i), false, mc::format("h=dense x=e%zu", i));
                    }
                    one(B, L, &hd, dense((2 * reach + 2) * B, 2), false, "h=dense x=dense");
                    one(B, L, nullptr, dense(T * B, 4), true, "identity callback, strided");
                });
            }
        }
        for (auto B : Bs) {
            for (auto L : Ls) {
                mc::check(name, {id, long(B), long(L)}, [&] {
                    auto const reach = (B + L + B - 2) / B;  // blocks a sample can influence
                    auto const T     = 2 * reach + 3;
                    auto const hd    = dense(L, 3);
                    for (std::size_t j = 0; j < L; ++j) {
                        auto const h = basis(L, j);
                        one(B, L, &h, dense(T * B, 1), j % 3 == 2, mc::format("h=e%zu x=dense", j));
                    }
                    for (std::size_t i = 0; i < 2 * B; ++i) {
                        one(B, L, &hd, basis(T * B, i), i % 4 == 3, mc::format("h=dense x=e%zu", i));
                    }
                    one(B, L, &hd, dense((3 * reach + 4) * B, 2), false, "h=dense x=dense");
                    for (auto [ex, eh] : amplitudes) {
                        auto const hs = scaled(hd, eh);
                        one(B, L, &hs, scaled(dense(T * B, 2), ex), false, mc::format("h=dense*2^%d x=dense*2^%d", eh, ex));
                        one(B, L, nullptr, scaled(dense(T * B, 2), ex), false, mc::format("identity callback, x=dense*2^%d", ex));
                    }
                    one(B, L, nullptr, dense(T * B, 2), false, "identity callback");
                    for (std::size_t w = 0; w < block_kinds * block_kinds; ++w) {
                        auto x       = block_of_kind(B, w % block_kinds, 4);
                        auto const z = block_of_kind(B, w / block_kinds, 5);
                        x.insert(x.end(), z.begin(), z.end());
                        x.resize(x.size() + (reach + 1) * B, 0.0L);
                        one(B, L, &hd, x, false, mc::format("kinds %zu", w));
                        one(B, L, nullptr, x, false, mc::format("identity callback, kinds %zu", w));
                    }
                    for (int step : {-20, 12}) {
                        rvec v;
                        for (int level : {0, -1, 1, 0, 2}) {
                            auto const loud = scaled(dense(B, level + 4), level * step);
                            v.insert(v.end(), loud.begin(), loud.end());
                            v.resize(v.size() + (2 * reach + 6) * B, 0.0L);
                        }
                        one(B, L, &hd, v, false, mc::format("bursts graded by 2^%d", step));
                    }
                    one(B, L, nullptr, dense(T * B, 4), true, "identity callback, strided");
                    auto const len = std::size_t(mc::thorough() ? 8 : 5);
                    for (std::size_t w = 0; w < (std::size_t(1) << len); ++w) {
                        rvec x;
                        for (std::size_t t = 0; t < len + reach; ++t) {
                            auto const blk = bit(w, t) && t < len ? dense(B, int(t) + 4) : rvec(B, 0.0L);
                            x.insert(x.end(), blk.begin(), blk.end());
                        }
                        one(B, L, &hd, x, false, mc::format("word %zx", w));
                    }
                    mc::sample("%s block %zu filter %zu: all filter basis vectors, all input impulses", name, B, L);
                });
            }
        }
    }
};

template<typename F>
void all(long id)
{
    using C = std::complex<F>;
    explorer<nc::overlap_add<C>, F>{"overlap_add", id}.run();
    explorer<nc::overlap_save<C>, F>{"overlap_save", id}.run();
}

void run()
{
#if MC_PART == 0
    all<float>(0);
#else
    all<double>(1);
#endif
}

}  // namespace

MC_MAIN(run)
