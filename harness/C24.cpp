// MC-TITLE: DCT plan computes the type-2 discrete cosine transform
// MC-TECH: every order x type x layout, all basis vectors, all words over {0,1,-1}, repeated use of one plan, oracle = cosine sum
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: avx512 v3rel
// MC-BOUNDS: Quick: orders 0..7 with every basis vector, 8..10 sparse, all words over {0,1,-1} up to n=4, {0,1} up to n=8; one plan object is reused for the whole input sequence of a size, forwards and backwards, and compared bit for bit with a fresh plan. Large orders 8..17 with spikes and basis cosines (closed form). Thorough: orders to 9 full and 12 sparse. The dense vector is also run scaled by 2^-90, 2^-45, 2^45 and 2^90.
#include "fftcommon.hpp"

using namespace fc;
namespace nf = neo::fft;

namespace {

auto quarter(long n4, long k) -> real  // cos(2 pi k / n4)
{
    return root(n4, k).real();
}

template<typename F>
void dct(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 7;
    std::size_t const last = mc::thorough() ? 12 : 10;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        for (int variant = 0; variant < 2; ++variant) {
            mc::check("dct2", {type_id, static_cast<long>(order), variant}, [&] {
                auto reused = nf::fallback_dct2_plan<F>{nf::from_order, order};
                mc::require(reused.order() == order && reused.size() == n, "order()/size() wrong for order %zu", order);
                real_inputs(n, order <= full, mc::thorough() ? 20000 : 700, [&](rvec const& x, std::string const& label) {
                    auto fresh    = nf::fallback_dct2_plan<F>{nf::from_order, order};
                    auto const st = variant == 0 ? std::size_t(1) : std::size_t(3);
                    buffer<F> a{n, st}, b{n, st};
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(i) = b.at(i) = static_cast<F>(x[i]);
                    }
                    if (variant == 0) {
                        reused(a.flat());
                        fresh(b.flat());
                    } else {
                        reused(a.strided());
                        fresh(b.strided());
                    }
                    mc::transition(2);
                    a.check_guards("dct");
                    auto const tol = eps<F>() * static_cast<real>(64 + 12 * order) * (l1(x) + 1e-30L);
                    for (std::size_t k = 0; k < n; ++k) {
                        real want = 0;
                        for (std::size_t j = 0; j < n; ++j) {
                            if (x[j] != 0) {
                                want += 2 * x[j] * quarter(static_cast<long>(4 * n), static_cast<long>((k * (2 * j + 1)) % (4 * n)));
                            }
                        }
                        mc::require(dist(a.at(k), want) <= tol, "dct n=%zu input %s: y[%zu] = %Lg, expected %Lg", n, label.c_str(), k, (real)a.at(k), want);
                    }
                    mc::require(a.mem == b.mem, "dct n=%zu input %s: a used plan gives a different result from a fresh one", n, label.c_str());
                    mc::state(mc::hasher{}.add(type_id).add(n).add(variant).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(a.mem));
                    mc::trace(2);
                });
                mc::sample("dct2 type=%ld n=%zu variant=%d", type_id, n, variant);
            });
        }
    }
}

/// large orders: inputs with few non-zero samples, a constant (closed form) and a cosine of each tested frequency
template<typename F>
void large(long type_id)
{
    for (std::size_t order = 8; order <= 17; ++order) {
        mc::check("dct2-large", {type_id, static_cast<long>(order)}, [&] {
            auto const n = std::size_t(1) << order;
            auto const n4 = static_cast<long>(4 * n);
            auto const rt = roots(4 * n);
            auto plan     = nf::fallback_dct2_plan<F>{nf::from_order, order};
            std::vector<std::vector<std::pair<std::size_t, real>>> inputs;
            for (std::size_t p : {std::size_t(0), std::size_t(1), std::size_t(2), n / 4 + 1, n / 2 - 1, n / 2, n - 2, n - 1}) {
                inputs.push_back({{p, 1.5L}});
            }
            inputs.push_back({{0, 1}, {n - 1, -1}, {n / 2, 0.5L}, {3, 2}, {n / 3, -0.75L}});
            auto use = [&](auto value, auto want, real norm, std::string const& label) {
                for (int variant = 0; variant < 2; ++variant) {
                    buffer<F> a{n, variant == 0 ? std::size_t(1) : std::size_t(3)};
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(i) = static_cast<F>(value(i));
                    }
                    if (variant == 0) {
                        plan(a.flat());
                    } else {
                        plan(a.strided());
                    }
                    mc::transition();
                    a.check_guards("dct");
                    auto const tol = eps<F>() * static_cast<real>(64 + 12 * order) * norm;
                    for (std::size_t k = 0; k < n; ++k) {
                        auto const w = want(k);
                        if (dist(a.at(k), w) > tol) {
                            mc::fail("dct n=%zu input %s: y[%zu] = %Lg, expected %Lg", n, label.c_str(), k, (real)a.at(k), w);
                        }
                    }
                    mc::outcome(hash_values(a.mem));
                    mc::states(1);
                    mc::trace();
                }
            };
            auto cosine = [&](std::size_t k, std::size_t j) { return rt[static_cast<std::size_t>((static_cast<unsigned long>(k) * (2 * j + 1)) % static_cast<unsigned long>(n4))].real(); };
            for (auto const& in : inputs) {
                real norm = 0;
                for (auto const& [p, v] : in) {
                    norm += std::abs(v);
                }
                use(
                    [&](std::size_t i) {
                        real s = 0;
                        for (auto const& [p, v] : in) {
                            s += p == i ? v : 0;
                        }
                        return s;
                    },
                    [&](std::size_t k) {
                        real s = 0;
                        for (auto const& [p, v] : in) {
                            s += 2 * v * cosine(k, p);
                        }
                        return s;
                    },
                    norm, mc::format("%zu spikes, first at %zu", in.size(), in[0].first));
            }
            // y of x[j] = cos(pi m (2j+1) / 2n) is n at k = m (2n at k = m = 0) and 0 elsewhere
            for (std::size_t m : {std::size_t(0), std::size_t(1), n / 2, n / 2 + 1, n - 1}) {
                use([&](std::size_t j) { return cosine(m, j); }, [&](std::size_t k) { return k != m ? real(0) : (m == 0 ? real(2 * n) : real(n)); }, real(n), mc::format("cosine %zu", m));
            }
        });
    }
}

void run()
{
    large<float>(2);
    large<double>(3);
    dct<float>(0);
    dct<double>(1);
}

}  // namespace

MC_MAIN(run)
