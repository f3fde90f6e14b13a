// helpers shared by the demonstrations
#pragma once
#include <mdspan/mdspan.hpp>
#include <mdspan/mdarray.hpp>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <numbers>
#include <random>
#include <span>
#include <vector>

namespace kx = Kokkos;
namespace ke = Kokkos::Experimental;
using E1 = kx::dextents<std::size_t, 1>;
using E2 = kx::dextents<std::size_t, 2>;
template<typename T> using A1 = ke::mdarray<T, E1>;
template<typename T> using A2 = ke::mdarray<T, E2>;
template<typename T> auto sp(std::vector<T>& v) { return kx::mdspan<T, E1>{v.data(), v.size()}; }
template<typename T> auto sp2(std::vector<T>& v, std::size_t r, std::size_t c) { return kx::mdspan<T, E2>{v.data(), r, c}; }

#define CK(cond, ...)                                                                                                  \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::printf("FAIL line %d: ", __LINE__);                                                                   \
            std::printf(__VA_ARGS__);                                                                                  \
            std::printf("\n");                                                                                         \
            std::exit(1);                                                                                              \
        }                                                                                                              \
    } while (0)

inline auto rnd(std::size_t n, unsigned seed = 1)
{
    std::mt19937 g{seed};
    std::uniform_real_distribution<double> d{-1.0, 1.0};
    std::vector<double> v(n);
    for (auto& x : v) { x = d(g); }
    return v;
}

/// spectrum of a unit impulse at p, bin k
inline auto tone(std::size_t n, std::size_t p, std::size_t k, int sign)
{
    auto const ph = static_cast<double>((p * k) % n) / static_cast<double>(n);
    return std::polar(1.0, sign * 2.0 * std::numbers::pi * ph);
}

inline auto dft(std::vector<std::complex<double>> const& x, int sign)
{
    std::vector<std::complex<double>> y(x.size());
    for (std::size_t k = 0; k < x.size(); ++k) {
        for (std::size_t i = 0; i < x.size(); ++i) { y[k] += x[i] * tone(x.size(), i, k, sign); }
    }
    return y;
}

inline auto conv(std::vector<double> const& x, std::vector<double> const& h)
{
    std::vector<double> y(x.size() + h.size() - 1, 0.0);
    for (std::size_t i = 0; i < x.size(); ++i) {
        for (std::size_t j = 0; j < h.size(); ++j) { y[i + j] += x[i] * h[j]; }
    }
    return y;
}

/// uniformly partitioned spectra of h: P x (B+1)
template<typename C = std::complex<double>>
auto parts(std::vector<double> const& h, std::size_t B)
{
    auto const P = (h.size() + B - 1) / B;
    A2<C> m{P, B + 1};
    for (std::size_t p = 0; p < P; ++p) {
        std::vector<std::complex<double>> x(2 * B);
        for (std::size_t i = 0; i < B && p * B + i < h.size(); ++i) { x[i] = h[p * B + i]; }
        auto const X = dft(x, -1);
        for (std::size_t k = 0; k <= B; ++k) { m(p, k) = C(static_cast<typename C::value_type>(X[k].real()), static_cast<typename C::value_type>(X[k].imag())); }
    }
    return m;
}
