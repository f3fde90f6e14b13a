#pragma once
#include "model.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/fft.hpp>

namespace fc {
using namespace model;

inline auto dir_of(int sign) { return sign < 0 ? neo::fft::direction::forward : neo::fft::direction::backward; }

template<typename C>
void compare(std::vector<C> const& got, vec const& want, real tol, char const* what, std::string const& label, int sign)
{
    for (std::size_t k = 0; k < want.size(); ++k) {
        auto const g = lift(got[k]);
        if (dist(g, want[k]) > tol) {
            mc::fail("%s: input %s n=%zu %s: output[%zu] = (%Lg,%Lg), the DFT gives (%Lg,%Lg), tolerance %Lg", what,
                     label.c_str(), want.size(), sign < 0 ? "forward" : "backward", k, g.real(), g.imag(),
                     want[k].real(), want[k].imag(), tol);
        }
    }
}

template<typename C>
auto tolerance(vec const& x, std::size_t order) -> real
{
    return eps<typename C::value_type>() * static_cast<real>(16 + 6 * order) * (l1(x) + 1e-30L);
}

/// All ways to apply a complex plan: in place, via fft()/ifft(), out of place, on strided views.
enum variant
{
    inplace_flat,
    inplace_strided,
    free_inplace,
    out_flat,
    out_strided,
    out_gather,   // strided input, contiguous output
    out_scatter,  // contiguous input, strided output
    num_variants
};
inline char const* const variant_name[] = {"in place", "in place strided", "fft() in place", "out of place", "out of place strided", "out of place from strided", "out of place to strided"};

template<typename C, typename Plan>
auto apply(Plan& plan, vec const& x, int sign, int variant) -> std::vector<C>
{
    auto const n  = x.size();
    auto const st = (variant == inplace_strided || variant == out_strided || variant == out_gather) ? std::size_t(3) : std::size_t(1);
    buffer<C> a{n, st};
    for (std::size_t i = 0; i < n; ++i) {
        a.at(i) = mk<C>(x[i]);
    }
    std::vector<C> result(n);
    switch (variant) {
        case inplace_flat: plan(a.flat(), dir_of(sign)); break;
        case inplace_strided: plan(a.strided(), dir_of(sign)); break;
        case free_inplace:
            if (sign < 0) {
                neo::fft::fft(plan, a.flat());
            } else {
                neo::fft::ifft(plan, a.flat());
            }
            break;
        default: break;
    }
    mc::transition();
    if (variant >= out_flat) {
        buffer<C> o{n, variant == out_strided || variant == out_scatter ? std::size_t(2) : std::size_t(1)};
        auto const before = a.mem;
        if (variant == out_flat) {
            if (sign < 0) {
                neo::fft::fft(plan, a.cflat(), o.flat());
            } else {
                neo::fft::ifft(plan, a.cflat(), o.flat());
            }
        } else if (variant == out_gather) {
            if (sign < 0) {
                neo::fft::fft(plan, a.cstrided(), o.flat());
            } else {
                neo::fft::ifft(plan, a.cstrided(), o.flat());
            }
        } else if (variant == out_scatter) {
            if (sign < 0) {
                neo::fft::fft(plan, a.cflat(), o.strided());
            } else {
                neo::fft::ifft(plan, a.cflat(), o.strided());
            }
        } else {
            if (sign < 0) {
                neo::fft::fft(plan, a.cstrided(), o.strided());
            } else {
                neo::fft::ifft(plan, a.cstrided(), o.strided());
            }
        }
        mc::require(std::memcmp(static_cast<void const*>(before.data()), static_cast<void const*>(a.mem.data()), before.size() * sizeof(C)) == 0,
                    "out-of-place transform modified its input (n=%zu)", n);
        o.check_guards("out of place transform output");
        for (std::size_t i = 0; i < n; ++i) {
            result[i] = o.at(i);
        }
        return result;
    }
    a.check_guards("in-place transform");
    for (std::size_t i = 0; i < n; ++i) {
        result[i] = a.at(i);
    }
    return result;
}

/// a dense vector per step, and what a transform of it has to give
inline auto dense_step(std::size_t n, int t) -> vec
{
    vec x(n);
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = cplx{static_cast<real>(static_cast<long>((i * 7 + 3 + std::size_t(t) * 5) % 31) - 15) / 8,
                    static_cast<real>(static_cast<long>((i * 11 + 5 + std::size_t(t) * 3) % 29) - 14) / 8};
    }
    return x;
}

/// every word of four directions on a plan that has not been used before
template<typename Fn>
void direction_words(Fn fn)
{
    for (int w = 0; w < 16; ++w) {
        fn(w, [w](int t) { return ((w >> t) & 1) != 0 ? 1 : -1; });
    }
}

template<typename C, typename Plan>
void explore_plan(char const* name, long type_id, std::size_t order, std::size_t n, std::size_t log2n, bool all_basis, std::uint64_t cap,
                  std::initializer_list<int> variants)
{
    if (n <= 128) {
        mc::check(name, {type_id, static_cast<long>(order), 100}, [&] {
            vec x[4], want[4][2];
            for (int t = 0; t < 4; ++t) {
                x[t]       = dense_step(n, t);
                want[t][0] = dft(x[t], -1);
                want[t][1] = dft(x[t], 1);
            }
            direction_words([&](int w, auto sign) {
                for (int v : variants) {
                    auto plan = Plan{neo::fft::from_order, order};
                    for (int t = 0; t < 4; ++t) {
                        auto const got = apply<C>(plan, x[t], sign(t), v);
                        compare(got, want[t][sign(t) > 0], tolerance<C>(x[t], log2n), mc::format("%s (%s), call %d of directions %x", name, variant_name[v], t, unsigned(w)).c_str(), "dense", sign(t));
                    }
                    mc::states(4);
                    mc::trace();
                }
            });
        });
    }
    for (int v : variants) {
        for (int sign : {-1, 1}) {
            mc::check(name, {type_id, static_cast<long>(order), v, sign}, [&] {
                auto plan = Plan{neo::fft::from_order, order};
                mc::require(plan.order() == order, "order() is %zu for a plan of order %zu", std::size_t(plan.order()), order);
                mc::require(plan.size() == n, "size() is %zu for a plan of order %zu", std::size_t(plan.size()), order);
                complex_inputs(n, all_basis, cap, [&](vec const& x, std::string const& label) {
                    auto const got  = apply<C>(plan, x, sign, v);
                    auto const want = dft(x, sign);
                    compare(got, want, tolerance<C>(x, log2n), mc::format("%s (%s)", name, variant_name[v]).c_str(), label, sign);
                    mc::state(mc::hasher{}.bytes(name, std::strlen(name)).add(type_id).add(n).add(v).add(sign).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::trace();
                });
                mc::sample("%s type=%ld n=%zu variant=%s direction=%s: all enumerated inputs equal the DFT", name, type_id, n,
                           variant_name[v], sign < 0 ? "forward" : "backward");
            });
        }
    }
}

/// table of the n-th roots of unity exp(2*pi*i*k/n)
inline auto roots(std::size_t n) -> std::vector<cplx> const&
{
    static std::vector<cplx> table;
    static std::size_t size = 0;
    if (size != n) {
        table.resize(n);
        for (std::size_t k = 0; k < n; ++k) {
            table[k] = std::polar(real(1), 2 * std::numbers::pi_v<real> * static_cast<real>(k) / static_cast<real>(n));
        }
        size = n;
    }
    return table;
}

/// Inputs of a long transform and their exact spectra: weighted basis vectors (flat spectra) and a dense decaying
/// spiral r^i, whose spectrum is the closed form (1 - r^n) / (1 - r w^k).
template<typename F>
void large_inputs(std::size_t n, int sign, F f)
{
    auto const& w = roots(n);
    for (std::size_t p : {std::size_t(1) % n, n / 3, n / 2 + 1, n - 1}) {
        p %= n;
        vec x(n, cplx{}), X(n);
        x[p] = cplx{1, -0.5L};
        std::size_t ph = 0;
        for (std::size_t k = 0; k < n; ++k) {
            X[k] = x[p] * (sign < 0 ? std::conj(w[ph]) : w[ph]);
            ph += p;
            if (ph >= n) {
                ph -= n;
            }
        }
        f(x, X, mc::format("(1-i/2)*e%zu", p));
    }
    vec x(n), X(n);
    auto const rho = std::exp(std::log(real(0.25)) / static_cast<real>(n));
    auto const r   = std::polar(rho, real(0.61803398875L));
    cplx rn{1, 0};
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = rn;
        rn   = (i % 64 == 63) ? std::polar(std::pow(rho, static_cast<real>(i + 1)), real(0.61803398875L) * static_cast<real>(i + 1)) : rn * r;
    }
    for (std::size_t k = 0; k < n; ++k) {
        X[k] = (real(1) - rn) / (real(1) - r * (sign < 0 ? std::conj(w[k]) : w[k]));
    }
    f(x, X, std::string{"spiral"});
}

template<typename C, typename Plan>
void explore_large(char const* name, long type_id, std::size_t order, std::size_t n, real tol_factor, std::initializer_list<int> variants)
{
    for (int v : variants) {
        for (int sign : {-1, 1}) {
            mc::check(name, {type_id, static_cast<long>(order), v, sign}, [&] {
                auto plan = Plan{neo::fft::from_order, order};
                mc::require(plan.order() == order && plan.size() == n, "order()/size() are wrong for order %zu", order);
                large_inputs(n, sign, [&](vec const& x, vec const& want, std::string const& label) {
                    auto const got = apply<C>(plan, x, sign, v);
                    auto const tol = eps<typename C::value_type>() * tol_factor * l1(x);
                    compare(got, want, tol, mc::format("%s (%s)", name, variant_name[v]).c_str(), label, sign);
                    mc::state(mc::hasher{}.bytes(name, std::strlen(name)).add(type_id).add(n).add(v).add(sign).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::trace();
                });
            });
        }
    }
}

}  // namespace fc
