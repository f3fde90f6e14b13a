// MC-TITLE: Installing a filter fully resets a convolver
// MC-TECH: all words up to a depth over {install one of five filters, process one block, run round the delay line}, the tail of every word compared with the convolution sum of what was fed since the last installation
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Five filters (block 2 x 1 partition, 2x3, 2x3 with other coefficients, 4x2, 8x1) and two processing letters (one dense block; P+1 dense blocks, for the free-chunk convolver chunks that stop inside a block); every word that starts with an installation, depth 5 (12005 words per convolver; thorough: depth 6, 84035 words), each followed by P+2 blocks that must be the linear convolution; upols, upola, both split variants, both sparse variants (keep all / keep none) and the free-chunk convolver; float and double. Every ordered pair of filters that look alike (28 of two shapes and two of others: all basis vectors, parts in common, swapped partitions, scaled, negated, reversed, silent; sparse: all 64 choices of kept coefficients of one filter, each after each), with none, one or four blocks between, against a fresh convolver.
#include "convcommon.hpp"

using namespace cc;

namespace {

struct shape
{
    std::size_t B, P;
    int salt;
};
constexpr shape shapes[] = {{2, 1, 3}, {2, 3, 4}, {2, 3, 9}, {4, 2, 5}, {8, 1, 6}};
constexpr int n_shapes   = 5;
constexpr int n_ops      = n_shapes + 2;

enum kind
{
    plain,
    sparse,
    chunked
};

template<typename Conv, typename F, kind Kind>
struct explorer
{
    using C = std::complex<F>;
    char const* name;
    long id;
    std::vector<rvec> h;
    std::vector<matrix<C>> spectra;

    explorer(char const* n, long i) : name{n}, id{i}
    {
        for (auto const& s : shapes) {
            h.push_back(dense(s.B * s.P, s.salt));
            spectra.push_back(partition<C>(h.back(), s.B, s.P));
        }
    }

    struct machine
    {
        explorer& e;
        std::vector<int> const& word;
        Conv conv{};
        int f{-1};
        bool dropped{false};
        std::size_t fed_total{0};
        rvec x{};
        std::vector<F> y{};

        void install(int k)
        {
            f       = k;
            dropped = false;
            x.clear();
            y.clear();
            if constexpr (Kind == sparse) {
                // filter 2 is installed with everything dropped: silence
                dropped = k == 2;
                conv.filter(e.spectra[std::size_t(k)].to_mdspan(), [d = dropped](auto, auto, auto) { return !d; });
            } else {
                conv.filter(e.spectra[std::size_t(k)].to_mdspan());
            }
            mc::transition();
        }
        void feed(std::size_t n)
        {
            buffer<F> b{n};
            for (std::size_t i = 0; i < n; ++i) {
                auto const v = real(long((fed_total * 7 + 3) % 19) - 9) / 4;
                ++fed_total;
                x.push_back(v);
                b.at(i) = static_cast<F>(v);
            }
            process<F>(conv, b, false);
            b.check_guards(e.name);
            for (std::size_t i = 0; i < n; ++i) {
                y.push_back(b.at(i));
            }
        }
        void verify()
        {
            auto const& hf = e.h[std::size_t(f)];
            auto const ref = stream(x, dropped ? rvec(hf.size(), 0.0L) : hf);
            auto const tol = tolerance<F>(x, hf, 2 * shapes[f].B);
            for (std::size_t i = 0; i < y.size(); ++i) {
                if (dist(y[i], ref[i]) > tol) {
                    std::string w;
                    for (auto o : word) {
                        w += ' ';
                        w += o < n_shapes ? mc::format("install%d", o) : (o == n_shapes ? "block" : "run");
                    }
                    mc::fail("%s after [%s ]: sample %zu since the last installation is %Lg, a fresh convolver would give %Lg", e.name, w.c_str(), i, (real)y[i], ref[i]);
                }
            }
        }
        void apply(int o)
        {
            if (o < n_shapes) {
                install(o);
                return;
            }
            auto const s = shapes[f];
            if constexpr (Kind == chunked) {
                if (o == n_shapes) {
                    feed(s.B);
                } else {
                    feed(s.B * s.P + 1);
                }
            } else {
                for (std::size_t i = 0; i < (o == n_shapes ? 1 : s.P + 1); ++i) {
                    feed(s.B);
                }
            }
        }
    };

    void words(std::vector<int>& w, std::size_t depth)
    {
        if (w.size() == depth) {
            machine m{*this, w};
            for (std::size_t i = 0; i < w.size(); ++i) {
                if (w[i] < n_shapes && m.f >= 0) {
                    m.verify();
                }
                m.apply(w[i]);
            }
            for (std::size_t i = 0; i < shapes[m.f].P + 2; ++i) {
                m.feed(shapes[m.f].B);
            }
            m.verify();
            mc::outcome(hash_values(m.y));
            mc::states(w.size());
            mc::trace();
            return;
        }
        for (int o = 0; o < n_ops; ++o) {
            w.push_back(o);
            words(w, depth);
            w.pop_back();
        }
    }

    void run()
    {
        auto const depth = std::size_t(mc::thorough() ? 6 : 5);
        for (int a = 0; a < n_shapes; ++a) {
            for (int b = 0; b < n_ops; ++b) {
                for (int c = 0; c < n_ops; ++c) {
                    mc::check(name, {id, a, b, c}, [&] {
                        std::vector<int> w{a, b, c};
                        words(w, depth);
                        mc::sample("%s: all words of length %zu starting with %d %d %d", name, depth, a, b, c);
                    });
                }
            }
        }
    }
};

// filters that are easily taken for one another: the same shape, the same values in other places or other signs, parts
// in common, zeros where the other one has none; sparse ones with every choice of kept coefficients
template<typename Conv, typename F, kind Kind>
void lookalikes(char const* name, long id)
{
    using C = std::complex<F>;
    struct item
    {
        std::size_t B, P;
        rvec h;
        matrix<C> s;
        unsigned mask;
        std::string label;
    };
    static std::vector<item> items;
    if (items.empty()) {
        auto add = [&](std::size_t B, std::size_t P, rvec h, std::string label, unsigned mask = ~0U) {
            auto s = partition<C>(h, B, P);
            items.push_back({B, P, std::move(h), std::move(s), mask, std::move(label)});
        };
        for (auto B : {std::size_t(2), std::size_t(4)}) {
            for (std::size_t j = 0; j < 2 * B; ++j) {
                add(B, 2, basis(2 * B, j), mc::format("B=%zu P=2 e%zu", B, j));
            }
            auto const d = dense(2 * B, 3);
            auto swapped = rvec(d.begin() + long(B), d.end());
            swapped.insert(swapped.end(), d.begin(), d.begin() + long(B));
            auto other = d;
            other.back() += 0.5L;
            auto first = d, second = d;
            std::fill(first.begin() + long(B), first.end(), 0.0L);
            std::fill(second.begin(), second.begin() + long(B), 0.0L);
            add(B, 2, d, mc::format("B=%zu P=2 dense", B));
            add(B, 2, scaled(d, 1), mc::format("B=%zu P=2 dense*2", B));
            add(B, 2, rvec(d.rbegin(), d.rend()), mc::format("B=%zu P=2 dense reversed", B));
            add(B, 2, swapped, mc::format("B=%zu P=2 partitions swapped", B));
            add(B, 2, other, mc::format("B=%zu P=2 last sample different", B));
            add(B, 2, first, mc::format("B=%zu P=2 first partition only", B));
            add(B, 2, second, mc::format("B=%zu P=2 second partition only", B));
            add(B, 2, rvec(2 * B, 0.0L), mc::format("B=%zu P=2 silence", B));
            auto negative = d;
            for (auto& v : negative) {
                v = -v;
            }
            add(B, 2, negative, mc::format("B=%zu P=2 negated", B));
        }
        auto const d = dense(8, 3);
        add(2, 4, d, "B=2 P=4 dense");
        add(8, 1, d, "B=8 P=1 dense");
        if constexpr (Kind == sparse) {
            auto both = basis(4, 0);
            both[2]   = 1.0L;
            for (unsigned m = 0; m < 64; ++m) {
                add(2, 2, both, mc::format("B=2 P=2 e0+e2 keeping %u", m), m);
            }
        }
    }
    auto install = [](Conv& c, item const& f) {
        if constexpr (Kind == sparse) {
            c.filter(f.s.to_mdspan(), [&f](auto row, auto col, auto) { return f.mask == ~0U || ((f.mask >> (std::size_t(row) * 3 + std::size_t(col))) & 1U) != 0; });
        } else {
            c.filter(f.s.to_mdspan());
        }
        mc::transition();
    };
    auto feed = [](Conv& c, std::size_t n, std::size_t at) {
        buffer<F> b{n};
        for (std::size_t i = 0; i < n; ++i) {
            b.at(i) = static_cast<F>(real(long(((at + i) * 7 + 3) % 19) - 9) / 4);
        }
        process<F>(c, b, false);
        std::vector<F> y;
        for (std::size_t i = 0; i < n; ++i) {
            y.push_back(b.at(i));
        }
        return y;
    };
    for (std::size_t a = 0; a < items.size(); ++a) {
        mc::check(name, {id, 100, long(a)}, [&] {
            for (auto const& g : items) {
                auto const& f = items[a];
                if ((f.mask == ~0U) != (g.mask == ~0U)) {
                    continue;
                }
                // what is audible is what a new convolver with the second filter gives
                std::vector<std::vector<F>> want;
                {
                    auto fresh = Conv{};
                    install(fresh, g);
                    for (std::size_t t = 0; t < g.P + 2; ++t) {
                        want.push_back(feed(fresh, g.B, t * g.B));
                    }
                }
                auto const tol = eps<F>() * real(1000);
                for (int between = 0; between < 3; ++between) {
                    auto conv = Conv{};
                    install(conv, f);
                    for (int k = 0; k < between * between; ++k) {  // none, one or four blocks
                        feed(conv, Kind == chunked ? f.B + 1 : f.B, std::size_t(k) + 5);
                    }
                    install(conv, g);
                    for (std::size_t t = 0; t < g.P + 2; ++t) {
                        auto const got = feed(conv, g.B, t * g.B);
                        for (std::size_t i = 0; i < g.B; ++i) {
                            mc::require(dist(got[i], want[t][i]) <= tol, "%s: [%s], %d blocks, then [%s]: block %zu sample %zu is %Lg, a fresh convolver gives %Lg", name, f.label.c_str(), between * between, g.label.c_str(), t, i, (real)got[i], (real)want[t][i]);
                        }
                    }
                    mc::states(g.P + 2);
                    mc::trace();
                }
            }
        });
    }
}

template<typename F>
void all(long id)
{
    using C = std::complex<F>;
    explorer<nc::upols_convolver<C>, F, plain>{"upols", id}.run();
    explorer<nc::upola_convolver<C>, F, plain>{"upola", id}.run();
    explorer<nc::split_upols_convolver<C>, F, plain>{"split_upols", id}.run();
    explorer<nc::split_upola_convolver<C>, F, plain>{"split_upola", id}.run();
    explorer<nc::sparse_upols_convolver<C>, F, sparse>{"sparse_upols", id}.run();
    explorer<nc::sparse_upola_convolver<C>, F, sparse>{"sparse_upola", id}.run();
    explorer<nc::upola_convolver_v2<C>, F, chunked>{"chunked_upola", id}.run();
    lookalikes<nc::upols_convolver<C>, F, plain>("upols", id);
    lookalikes<nc::upola_convolver<C>, F, plain>("upola", id);
    lookalikes<nc::split_upols_convolver<C>, F, plain>("split_upols", id);
    lookalikes<nc::split_upola_convolver<C>, F, plain>("split_upola", id);
    lookalikes<nc::sparse_upols_convolver<C>, F, sparse>("sparse_upols", id);
    lookalikes<nc::sparse_upola_convolver<C>, F, sparse>("sparse_upola", id);
    lookalikes<nc::upola_convolver_v2<C>, F, chunked>("chunked_upola", id);
}

void run()
{
#if MC_PART == 0
    all<float>(0);
#else
    all<double>(1);
#endif
}

}  // namespace

MC_MAIN(run)
