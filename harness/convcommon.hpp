#pragma once
#include "model.hpp"

#include <neo/complex/scalar_complex.hpp>
#include <neo/convolution.hpp>

namespace cc {
using namespace model;
namespace nc = neo::convolution;

template<typename C>
using matrix = Kokkos::Experimental::mdarray<C, ext2>;

inline auto l2(rvec const& x) -> real
{
    real s = 0;
    for (auto v : x) {
        s += v * v;
    }
    return std::sqrt(s);
}

/// spectra of consecutive zero-padded blocks of the impulse response, computed by the model
template<typename C>
auto partition(rvec const& h, std::size_t B, std::size_t P) -> matrix<C>
{
    auto m = matrix<C>{P, B + 1};
    for (std::size_t p = 0; p < P; ++p) {
        vec x(2 * B, cplx{});
        for (std::size_t i = 0; i < B && p * B + i < h.size(); ++i) {
            x[i] = h[p * B + i];
        }
        auto const X = dft(x, -1);
        for (std::size_t k = 0; k <= B; ++k) {
            m(p, k) = mk<C>(X[k]);
        }
    }
    return m;
}

inline auto dense(std::size_t n, int salt) -> rvec
{
    rvec x(n);
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = real(long((i * 7 + std::size_t(salt) * 5 + (i / 13) * 3 + 3) % 17) - 8) / 8;
    }
    return x;
}

inline auto basis(std::size_t n, std::size_t j) -> rvec
{
    rvec x(n, 0.0L);
    x[j] = 1;
    return x;
}

inline auto scaled(rvec x, int e) -> rvec
{
    for (auto& v : x) {
        v = std::ldexp(v, e);
    }
    return x;
}

/// exponents by which signal and filter are scaled: exact in binary floating point, so only exponents may change
inline constexpr std::pair<int, int> amplitudes[] = {{-60, 0}, {0, -60}, {60, 0}, {0, 60}, {-30, -30}, {-45, 45}, {45, -100}, {-100, 45}};

/// tolerance for one output sample of a transform-based convolution
template<typename F>
auto tolerance(rvec const& x, rvec const& h, std::size_t K) -> real
{
    return eps<F>() * real(48 + 8 * std::log2(double(K) + 1)) * (l2(x) * l2(h) + 1e-30L);
}

/// the same per block of B samples: only blocks that partition p can see contribute to the rounding of block t, so a
/// quiet passage or a quiet partition is held to its own level
template<typename F>
auto local_tolerance(rvec const& x, rvec const& h, std::size_t B) -> rvec
{
    auto energy = [&](rvec const& v, std::size_t b) {
        real s = 0;
        for (std::size_t i = b * B; i < std::min((b + 1) * B, v.size()); ++i) {
            s += v[i] * v[i];
        }
        return std::sqrt(s);
    };
    auto const T = (x.size() + B - 1) / B;
    auto const P = (h.size() + B - 1) / B;
    rvec ex(T), r(T, 0.0L);
    for (std::size_t t = 0; t < T; ++t) {
        ex[t] = energy(x, t);
    }
    for (std::size_t p = 0; p < P; ++p) {
        auto const eh = energy(h, p);
        for (std::size_t t = p; t < T; ++t) {
            r[t] += eh * (ex[t - p] + (t > p ? ex[t - p - 1] : 0.0L) + (t > p + 1 ? ex[t - p - 2] : 0.0L));
        }
    }
    for (auto& v : r) {
        v = eps<F>() * real(48 + 8 * std::log2(double(2 * B) + 1)) * (v + 1e-30L);
    }
    return r;
}

/// kinds of blocks: silence, dense, one sample at the end, zero mean, all negative, one sample at the start
inline constexpr std::size_t block_kinds = 6;
inline auto block_of_kind(std::size_t B, std::size_t kind, int salt) -> rvec
{
    switch (kind) {
        case 0: return rvec(B, 0.0L);
        case 1: {
            rvec x(B);
            for (std::size_t i = 0; i < B; ++i) {
                x[i] = real(long((i * 7 + std::size_t(salt) * 5 + (i / 13) * 3 + 3) % 17) - 8) / 8;
            }
            return x;
        }
        case 3: {
            rvec x(B, 0.0L);
            for (std::size_t i = 0; i + 1 < B; i += 2) {
                x[i]     = 1;
                x[i + 1] = -1;
            }
            return x;
        }
        case 4: return rvec(B, -0.75L);
        default: {
            rvec x(B, 0.0L);
            x[kind == 2 ? B - 1 : 0] = 1;
            return x;
        }
    }
}

/// partitions whose levels fall or rise by 2^step each
inline auto graded(rvec h, std::size_t B, int step) -> rvec
{
    auto const P = int((h.size() + B - 1) / B);
    for (std::size_t i = 0; i < h.size(); ++i) {
        auto const p = int(i / B);
        h[i] = std::ldexp(h[i], step < 0 ? step * p : -step * (P - 1 - p));
    }
    return h;
}

/// y[t] of the linear convolution for t < n
inline auto stream(rvec const& x, rvec const& h) -> rvec
{
    auto y = convolve(x, h);
    y.resize(x.size());
    return y;
}

template<typename F, typename Conv>
void process(Conv& conv, buffer<F>& b, bool strided)
{
    if (strided) {
        conv(b.strided());
    } else {
        conv(b.flat());
    }
    mc::transition();
}

/// one linear index per (row, column)
inline auto bit(std::uint64_t mask, std::size_t i) -> bool { return ((mask >> i) & 1U) != 0; }

}  // namespace cc
