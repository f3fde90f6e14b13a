// Reference models and buffer helpers shared by the harnesses.  Nothing here uses library code except
// the mdspan types that its public interface is written in.
#pragma once

#include "mc.hpp"

#include <mdspan/mdarray.hpp>
#include <mdspan/mdspan.hpp>

#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstring>
#include <limits>
#include <map>
#include <numbers>
#include <utility>
#include <vector>

namespace model {

using real = long double;
using cplx = std::complex<long double>;
using vec  = std::vector<cplx>;
using rvec = std::vector<real>;

/// exp(2 pi i k / n), accurate to long double, exact on the axes
inline auto root(long n, long k) -> cplx
{
    static std::map<long, vec> cache;
    auto& t = cache[n];
    if (t.empty()) {
        t.resize(static_cast<std::size_t>(n));
        for (long j = 0; j < n; ++j) {
            if ((4 * j) % n == 0) {
                static cplx const axis[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
                t[static_cast<std::size_t>(j)] = axis[(4 * j) / n];
            } else {
                auto a = 2.0L * std::numbers::pi_v<long double> * static_cast<real>(j) / static_cast<real>(n);
                t[static_cast<std::size_t>(j)] = {std::cos(a), std::sin(a)};
            }
        }
    }
    k %= n;
    if (k < 0) {
        k += n;
    }
    return t[static_cast<std::size_t>(k)];
}

/// X[k] = sum_j x[j] exp(sign 2 pi i j k / n); sign = -1 forward, +1 backward.  Skips zero inputs.
inline auto dft(vec const& x, int sign) -> vec
{
    auto const n = static_cast<long>(x.size());
    vec y(x.size(), cplx{});
    for (long j = 0; j < n; ++j) {
        auto const v = x[static_cast<std::size_t>(j)];
        if (v == cplx{}) {
            continue;
        }
        for (long k = 0; k < n; ++k) {
            y[static_cast<std::size_t>(k)] += v * root(n, sign * ((j * k) % n));
        }
    }
    return y;
}

inline auto convolve(rvec const& a, rvec const& b) -> rvec
{
    if (a.empty() || b.empty()) {
        return {};
    }
    rvec y(a.size() + b.size() - 1, 0.0L);
    for (std::size_t i = 0; i < a.size(); ++i) {
        for (std::size_t j = 0; j < b.size(); ++j) {
            y[i + j] += a[i] * b[j];
        }
    }
    return y;
}

inline auto l1(vec const& x) -> real
{
    real s = 0;
    for (auto const& v : x) {
        s += std::abs(v.real()) + std::abs(v.imag());
    }
    return s;
}
inline auto l1(rvec const& x) -> real
{
    real s = 0;
    for (auto const& v : x) {
        s += std::abs(v);
    }
    return s;
}

// --- views ----------------------------------------------------------------------------------------
using ext1 = Kokkos::dextents<std::size_t, 1>;
using ext2 = Kokkos::dextents<std::size_t, 2>;
template<typename T>
using span1 = Kokkos::mdspan<T, ext1>;
template<typename T>
using strided1 = Kokkos::mdspan<T, ext1, Kokkos::layout_stride>;

/// A rank-1 buffer of n elements at a given stride, with guard elements before, between and after.
/// stride 1 still has guards on both ends.  check_guards() fails if anything but the n elements changed.
template<typename T>
struct buffer
{
    static constexpr std::size_t pad = 5;
    std::size_t n;
    std::size_t stride;
    std::vector<T> mem;

    explicit buffer(std::size_t n_, std::size_t stride_ = 1) : n{n_}, stride{stride_}, mem(n_ * stride_ + 2 * pad + 3)
    {
        std::memset(static_cast<void*>(mem.data()), 0x5a, mem.size() * sizeof(T));
    }
    auto at(std::size_t i) -> T& { return mem[pad + i * stride]; }
    auto at(std::size_t i) const -> T const& { return mem[pad + i * stride]; }
    auto ptr() -> T* { return mem.data() + pad; }
    auto ptr() const -> T const* { return mem.data() + pad; }
    auto flat() -> span1<T> { return span1<T>{ptr(), ext1{n}}; }
    auto cflat() const -> span1<T const> { return span1<T const>{ptr(), ext1{n}}; }
    auto strided() -> strided1<T>
    {
        using map = Kokkos::layout_stride::mapping<ext1>;
        return strided1<T>{ptr(), map{ext1{n}, std::array<std::size_t, 1>{stride}}};
    }
    auto cstrided() const -> strided1<T const>
    {
        using map = Kokkos::layout_stride::mapping<ext1>;
        return strided1<T const>{ptr(), map{ext1{n}, std::array<std::size_t, 1>{stride}}};
    }
    void check_guards(char const* what) const
    {
        for (std::size_t i = 0; i < mem.size(); ++i) {
            if (i >= pad && (i - pad) % stride == 0 && (i - pad) / stride < n) {
                continue;
            }
            auto const* b = reinterpret_cast<unsigned char const*>(mem.data() + i);
            for (std::size_t k = 0; k < sizeof(T); ++k) {
                if (b[k] != 0x5a) {
                    mc::fail("%s: element outside the view was written (offset %ld)", what,
                             static_cast<long>(i) - static_cast<long>(pad));
                }
            }
        }
    }
};

/// A rank-2 buffer in any of the three layouts, with guards.
template<typename T>
struct buffer2
{
    static constexpr std::size_t pad = 4;
    std::size_t r, c;
    std::size_t s0, s1;
    std::vector<T> mem;
    buffer2(std::size_t r_, std::size_t c_, std::size_t s0_, std::size_t s1_)
        : r{r_}
        , c{c_}
        , s0{s0_}
        , s1{s1_}
        , mem(2 * pad + (r_ == 0 || c_ == 0 ? 1 : (r_ - 1) * s0_ + (c_ - 1) * s1_ + 1))
    {
        std::memset(static_cast<void*>(mem.data()), 0x5a, mem.size() * sizeof(T));
    }
    auto at(std::size_t i, std::size_t j) -> T& { return mem[pad + i * s0 + j * s1]; }
    auto ptr() -> T* { return mem.data() + pad; }
    auto right() { return Kokkos::mdspan<T, ext2, Kokkos::layout_right>{ptr(), ext2{r, c}}; }
    auto left() { return Kokkos::mdspan<T, ext2, Kokkos::layout_left>{ptr(), ext2{r, c}}; }
    auto strided()
    {
        using map = Kokkos::layout_stride::mapping<ext2>;
        return Kokkos::mdspan<T, ext2, Kokkos::layout_stride>{ptr(), map{ext2{r, c}, std::array<std::size_t, 2>{s0, s1}}};
    }
    void check_guards(char const* what)
    {
        std::vector<bool> used(mem.size(), false);
        for (std::size_t i = 0; i < r; ++i) {
            for (std::size_t j = 0; j < c; ++j) {
                used[pad + i * s0 + j * s1] = true;
            }
        }
        for (std::size_t i = 0; i < mem.size(); ++i) {
            if (used[i]) {
                continue;
            }
            auto const* b = reinterpret_cast<unsigned char const*>(mem.data() + i);
            for (std::size_t k = 0; k < sizeof(T); ++k) {
                mc::require(b[k] == 0x5a, "%s: element outside the matrix view was written (offset %ld)", what,
                            static_cast<long>(i) - static_cast<long>(pad));
            }
        }
    }
};
/// 0: layout_right, 1: layout_left, 2: layout_stride with gaps, 3: layout_stride, transposed with gaps
template<typename T>
auto make2(int layout, std::size_t r, std::size_t c) -> buffer2<T>
{
    switch (layout) {
        case 0: return {r, c, c, 1};
        case 1: return {r, c, 1, r};
        case 2: return {r, c, 2 * c + 3, 2};
        default: return {r, c, 3, 3 * r + 2};
    }
}
template<typename T, typename F>
void with_view2(int layout, buffer2<T>& b, F f)
{
    switch (layout) {
        case 0: f(b.right()); break;
        case 1: f(b.left()); break;
        default: f(b.strided()); break;
    }
}

template<typename T>
auto hash_values(std::vector<T> const& v) -> std::uint64_t
{
    mc::hasher h;
    h.add(v);
    return h.h;
}

template<typename C>
auto mk(cplx v) -> C
{
    using F = typename C::value_type;
    return C{static_cast<F>(v.real()), static_cast<F>(v.imag())};
}
template<typename C>
auto lift(C v) -> cplx
{
    return cplx{static_cast<real>(v.real()), static_cast<real>(v.imag())};
}

/// absolute distance, NaN counts as infinite
inline auto dist(cplx a, cplx b) -> real
{
    auto d = std::max(std::abs(a.real() - b.real()), std::abs(a.imag() - b.imag()));
    return std::isnan(d) || std::isnan(a.real()) || std::isnan(a.imag()) ? std::numeric_limits<real>::infinity() : d;
}
inline auto dist(real a, real b) -> real
{
    auto d = std::abs(a - b);
    return std::isnan(d) ? std::numeric_limits<real>::infinity() : d;
}

template<typename F>
constexpr auto eps() -> real
{
    return static_cast<real>(std::numeric_limits<F>::epsilon());
}

// --- input families for linear transforms -----------------------------------------------------------
/// Calls f(x, label) for: every basis vector j (times 1 and i) if `all_basis`, else those whose index has at
/// most two bits set or cleared; every vector over the alphabet {0,1,-1,i,-i} while n is small enough
/// (5^n <= cap), or over {0,1} (2^n <= cap); one dense vector with pairwise different entries.
template<typename F>
void complex_inputs(std::size_t n, bool all_basis, std::uint64_t cap, F f)
{
    vec x(n, cplx{});
    for (std::size_t j = 0; j < n; ++j) {
        auto const bits = __builtin_popcountl(j);
        auto const zeros = __builtin_popcountl((n - 1 - j));
        if (!all_basis && bits > 2 && zeros > 2) {
            continue;
        }
        x[j] = cplx{1, 0};
        f(x, mc::format("e%zu", j));
        x[j] = cplx{0, 1};
        f(x, mc::format("i*e%zu", j));
        x[j] = cplx{};
    }
    static cplx const letters[5] = {{0, 0}, {1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    for (int base : {5, 3, 2}) {
        std::uint64_t total = 1;
        bool ok             = true;
        for (std::size_t i = 0; i < n && ok; ++i) {
            total *= static_cast<unsigned>(base);
            ok = total <= cap;
        }
        if (!ok) {
            continue;
        }
        for (std::uint64_t w = 0; w < total; ++w) {
            auto r = w;
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = letters[r % static_cast<unsigned>(base)];
                r /= static_cast<unsigned>(base);
            }
            f(x, mc::format("word%d:%lu", base, w));
        }
        break;
    }
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = cplx{static_cast<real>(static_cast<long>((i * 7 + 3) % 31) - 15) / 8,
                    static_cast<real>(static_cast<long>((i * 11 + 5) % 29) - 14) / 8};
    }
    f(x, std::string{"dense"});
    // the same vector at other amplitudes: scaling by a power of two is exact, so nothing may change but the exponent
    auto const y = x;
    for (int e : {-90, -45, 45, 90}) {
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = cplx{std::ldexp(y[i].real(), e), std::ldexp(y[i].imag(), e)};
        }
        f(x, mc::format("dense*2^%d", e));
    }
    x.assign(n, cplx{1, 0});
    f(x, std::string{"ones"});
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = i % 2 == 0 ? cplx{0.5L, 1} : cplx{-0.5L, -1};
    }
    f(x, std::string{"alternating"});
}

template<typename F>
void real_inputs(std::size_t n, bool all_basis, std::uint64_t cap, F f)
{
    rvec x(n, 0.0L);
    for (std::size_t j = 0; j < n; ++j) {
        auto const bits  = __builtin_popcountl(j);
        auto const zeros = __builtin_popcountl((n - 1 - j));
        if (!all_basis && bits > 2 && zeros > 2) {
            continue;
        }
        x[j] = 1;
        f(x, mc::format("e%zu", j));
        x[j] = 0;
    }
    for (int base : {3, 2}) {
        std::uint64_t total = 1;
        bool ok             = true;
        for (std::size_t i = 0; i < n && ok; ++i) {
            total *= static_cast<unsigned>(base);
            ok = total <= cap;
        }
        if (!ok) {
            continue;
        }
        for (std::uint64_t w = 0; w < total; ++w) {
            auto r = w;
            for (std::size_t i = 0; i < n; ++i) {
                auto d = static_cast<int>(r % static_cast<unsigned>(base));
                x[i]   = d == 2 ? -1 : d;
                r /= static_cast<unsigned>(base);
            }
            f(x, mc::format("word%d:%lu", base, w));
        }
        break;
    }
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = static_cast<real>(static_cast<long>((i * 7 + 3) % 31) - 15) / 8;
    }
    f(x, std::string{"dense"});
    auto const y = x;
    for (int e : {-90, -45, 45, 90}) {
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = std::ldexp(y[i], e);
        }
        f(x, mc::format("dense*2^%d", e));
    }
    x.assign(n, 1.0L);
    f(x, std::string{"ones"});
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = i % 2 == 0 ? 0.5L : -0.5L;
    }
    f(x, std::string{"alternating"});
}

}  // namespace model
