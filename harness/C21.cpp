// MC-TITLE: Complex scalar type obeys complex arithmetic
// MC-TECH: exhaustive enumeration of operand quadruples over a value alphabet and over magnitude combinations, for every operator form and aliasing, and of accessor arguments (all 8/16-bit integers, float grids), compared with extended-precision complex arithmetic
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: neon v3rel gccrel avx512
// MC-PARTS: 2
// MC-BOUNDS: all quadruples of components from 13 values (thorough 19) for half, single, double, and from 9 for int; all pairs of 16 directions x magnitudes 2^-30..2^30 (double 2^-200..2^200, half 2^-4..2^4) in every combination; plain, compound, mixed real/complex, self-assigning forms; abs of every 8/16-bit integer and boundary neighbourhoods of wider ones; log2, real, imag, conj, polar on a grid of all exponents.
// MC-ASSUME: squares of magnitudes neither overflow nor underflow; quotients by non-zero values; math::imag of a non-complex argument is outside the property (the existing test pins it to the argument itself)
#include "model.hpp"

#include <neo/complex.hpp>
#include <neo/math.hpp>

#include <limits>
#include <set>
#include <tuple>

using namespace model;

namespace {

template<typename F>
constexpr auto precision() -> real
{
    if constexpr (sizeof(F) == 2) {
        return 1.0L / 1024;
    } else if constexpr (std::is_integral_v<F>) {
        return 0;
    } else {
        return std::numeric_limits<F>::epsilon();
    }
}

template<typename Z>
using scalar_t = typename Z::value_type;

struct value
{
    real re, im;
};

auto norm(value z) -> real { return std::sqrt(z.re * z.re + z.im * z.im); }

template<typename F>
void near(char const* what, value a, value b, value got, value want, real tol)
{
    auto const ok = std::abs(got.re - want.re) <= tol && std::abs(got.im - want.im) <= tol;
    if (!ok) {
        mc::fail("%zu-byte complex: %s with (%Lg,%Lg) and (%Lg,%Lg) is (%.20Lg,%.20Lg), expected (%.20Lg,%.20Lg), tolerance %Lg", sizeof(F), what, a.re, a.im, b.re, b.im, got.re, got.im, want.re, want.im, tol);
    }
}

template<typename Z>
auto up(Z z) -> value
{
    return {real(z.real()), real(z.imag())};
}

template<typename F>
void pair(F a, F b, F c, F d)
{
    using Z      = neo::scalar_complex<F>;
    auto const x = Z{a, b};
    auto const y = Z{c, d};
    auto const A = up(x);
    auto const B = up(y);
    auto const e = precision<F>();
    auto const tiny = std::is_integral_v<F> ? 0.0L : sizeof(F) == 2 ? real(6e-8) : real(std::numeric_limits<F>::min());

    mc::require(x.real() == a && x.imag() == b, "components");
    mc::require(neo::get<0>(x) == a && neo::get<1>(x) == b, "get");
    auto const [re, im] = x;
    mc::require(re == a && im == b, "structured binding");

    auto const sum  = value{A.re + B.re, A.im + B.im};
    auto const diff = value{A.re - B.re, A.im - B.im};
    auto const prod = value{A.re * B.re - A.im * B.im, A.re * B.im + A.im * B.re};
    auto const len  = norm(A) * norm(B);
    auto const ts   = e * (std::abs(A.re) + std::abs(B.re) + std::abs(A.im) + std::abs(B.im));
    auto const tp   = 3 * e * len + tiny;
    auto rounded    = [&](char const* what, Z z, F r, F i) {
        mc::require(z.real() == r && z.imag() == i, "%s with (%Lg,%Lg) and (%Lg,%Lg) is (%.20Lg,%.20Lg), expected (%.20Lg,%.20Lg)", what, A.re, A.im, B.re, B.im, real(z.real()), real(z.imag()), real(r), real(i));
    };
    // sums, negation and conjugation are exactly rounded
    rounded("+", x + y, F(a + c), F(b + d));
    rounded("-", x - y, F(a - c), F(b - d));
    rounded("unary -", -x, F(-a), F(-b));
    rounded("unary +", +x, a, b);
    rounded("conj", neo::conj(x), a, F(-b));
    rounded("math::conj", neo::math::conj(x), a, F(-b));
    mc::require(neo::math::real(x) == a && neo::math::imag(x) == b, "math::real/imag");
    mc::require(neo::float_equality::exact(x, y) == (a == c && b == d), "float_equality::exact of (%Lg,%Lg) and (%Lg,%Lg)", A.re, A.im, B.re, B.im);
    mc::require(neo::float_equality::exact(x, x), "float_equality::exact with itself");
    near<F>("+", A, B, up(x + y), sum, ts);
    near<F>("-", A, B, up(x - y), diff, ts);
    near<F>("*", A, B, up(x * y), prod, tp);
    // mixed with a real operand
    rounded("+ real", x + Z{c}, F(a + c), b);
    if constexpr (sizeof(F) > 2) {
        rounded("+ real", x + c, F(a + c), b);
        rounded("- real", x - c, F(a - c), b);
        near<F>("* real", A, {B.re, 0}, up(x * c), {A.re * B.re, A.im * B.re}, 3 * e * norm(A) * std::abs(B.re) + tiny);
        near<F>("real *", A, {B.re, 0}, up(c * x), {A.re * B.re, A.im * B.re}, 3 * e * norm(A) * std::abs(B.re) + tiny);
    }

    // compound forms return their left operand and agree with the plain forms
    auto compound = [&](char const* what, auto op, value want, real tol) {
        auto z       = x;
        auto& result = op(z, y);
        mc::require(&result == &z, "%s does not return its left operand", what);
        near<F>(what, A, B, up(z), want, tol);
    };
    compound("+=", [](Z& l, Z const& r) -> Z& { return l += r; }, sum, ts);
    compound("-=", [](Z& l, Z const& r) -> Z& { return l -= r; }, diff, ts);
    compound("*=", [](Z& l, Z const& r) -> Z& { return l *= r; }, prod, tp);
    compound("*= real", [&](Z& l, Z const&) -> Z& { return l *= c; }, {A.re * B.re, A.im * B.re}, e * norm(A) * std::abs(B.re) + tiny);
    compound("*= int", [&](Z& l, Z const&) -> Z& { return l *= 3; }, {A.re * 3, A.im * 3}, e * norm(A) * 3 + tiny);
    {
        auto z = x;
        z += z;
        near<F>("z += z", A, A, up(z), {2 * A.re, 2 * A.im}, 0);
        z = x;
        z -= z;
        near<F>("z -= z", A, A, up(z), {0, 0}, 0);
        z = x;
        z *= z;
        near<F>("z *= z", A, A, up(z), {A.re * A.re - A.im * A.im, 2 * A.re * A.im}, 3 * e * norm(A) * norm(A) + tiny);
    }
    if constexpr (!std::is_integral_v<F>) {
        // magnitude
        auto const m = neo::abs(x);
        mc::require(std::abs(real(m) - norm(A)) <= 3 * e * norm(A) + tiny, "abs of (%Lg,%Lg) is %.20Lg, expected %.20Lg", A.re, A.im, real(m), norm(A));
        mc::require(real(neo::math::abs(x)) == real(m), "math::abs differs from abs");
        // quotient
        auto const n2 = B.re * B.re + B.im * B.im;
        if (n2 != 0) {
            auto const quot = value{(A.re * B.re + A.im * B.im) / n2, (A.im * B.re - A.re * B.im) / n2};
            auto const tq   = 8 * e * norm(A) / norm(B) + 4 * tiny;
            near<F>("/", A, B, up(x / y), quot, tq);
            compound("/=", [](Z& l, Z const& r) -> Z& { return l /= r; }, quot, tq);
            auto z = y;
            z /= z;
            near<F>("z /= z", B, B, up(z), {1, 0}, 8 * e);
        }
        if (c != F(0)) {
            auto const tq = 2 * e * norm(A) / std::abs(B.re) + 4 * tiny;
            compound("/= real", [&](Z& l, Z const&) -> Z& { return l /= c; }, {A.re / B.re, A.im / B.re}, tq);
            compound("/= int", [&](Z& l, Z const&) -> Z& { return l /= 5; }, {A.re / 5, A.im / 5}, 2 * e * norm(A) + tiny);
            near<F>("/ complex(real)", A, {B.re, 0}, up(x / Z{c}), {A.re / B.re, A.im / B.re}, 8 * e * norm(A) / std::abs(B.re) + 4 * tiny);
        }
    }
}

template<typename F>
void grid(long id)
{
    std::vector<F> v;
    if constexpr (std::is_integral_v<F>) {
        v = {0, 1, -1, 2, 3, -7, 100, -1000, 12345};
    } else {
        v = {F(0), F(1), F(-1), F(0.5), F(2), F(-3), F(0.1F), F(-1.0F / 3), F(3.1415927F), F(-7.25F), F(12.34F), F(-0.015625F), F(5.5555555F),
             F(9.75F), F(-0.7071068F), F(1.0009766F), F(0.2F), F(-11.0F), F(0.9995117F)};
        if (!mc::thorough()) {
            v.resize(13);
        }
    }
    for (std::size_t i = 0; i < v.size(); ++i) {
        mc::check("quads", {id, long(i)}, [&] {
            for (auto b : v) {
                for (auto c : v) {
                    for (auto d : v) {
                        pair<F>(v[i], b, c, d);
                    }
                }
            }
            auto const n = v.size() * v.size() * v.size();
            mc::states(n);
            mc::transition(n * 25);
            mc::trace(n);
        });
    }
    mc::check("construction", {id}, [&] {
        using Z = neo::scalar_complex<F>;
        static_assert(neo::complex<Z>);
        static_assert(std::tuple_size<Z>::value == 2);
        static_assert(std::is_same_v<std::tuple_element_t<0, Z>, F> && std::is_same_v<std::tuple_element_t<1, Z>, F>);
        for (auto a : v) {
            auto const z = Z{a};
            mc::require(z.real() == a && z.imag() == F(0), "complex number from a real part");
            mc::require(Z{}.real() == F(0) && Z{}.imag() == F(0), "value-initialised complex number");
            for (auto b : v) {
                auto w = Z{F(99), F(98)};
                w.real(a);
                mc::require(w.real() == a && w.imag() == F(98), "setting the real part");
                w.imag(b);
                mc::require(w.real() == a && w.imag() == b, "setting the imaginary part");
                auto u = w;
                u      = Z{b, a};
                mc::require(u.real() == b && u.imag() == a && w.real() == a, "assignment");
                mc::states(1);
                mc::trace();
            }
        }
    });
    if constexpr (!std::is_integral_v<F>) {
        auto const range = sizeof(F) == 2 ? 4 : sizeof(F) == 4 ? 30 : 200;
        auto const step  = sizeof(F) == 2 ? 1 : sizeof(F) == 4 ? 6 : 40;
        for (int p = -range; p <= range; p += step) {
            mc::check("scales", {id, long(p)}, [&] {
                for (int q = -range; q <= range; q += step) {
                    for (int i = 0; i < 16; ++i) {
                        for (int j = 0; j < 16; ++j) {
                            auto const s = std::ldexp(1.0L, p), t = std::ldexp(1.0L, q);
                            auto const k = 3.14159265358979323846L / 8;
                            pair<F>(F(s * std::cos(i * k + 0.1L)), F(s * std::sin(i * k + 0.1L)), F(t * std::cos(j * k + 0.3L)), F(t * std::sin(j * k + 0.3L)));
                            mc::states(1);
                            mc::transition(25);
                            mc::trace();
                        }
                    }
                }
            });
        }
    }
}

// --- generic accessors -------------------------------------------------------------------------------------------
struct with_members
{
    double x;
    auto abs() const { return x + 1; }
    auto conj() const { return x + 2; }
    auto real() const { return x + 3; }
    auto imag() const { return x + 4; }
};

namespace other {
struct with_adl
{
    double x;
};
auto abs(with_adl a) { return a.x + 1; }
auto conj(with_adl a) { return a.x + 2; }
auto real(with_adl a) { return a.x + 3; }
auto imag(with_adl a) { return a.x + 4; }
auto log2(with_adl a) { return a.x + 5; }
auto polar(with_adl r, with_adl t) { return r.x * 10 + t.x; }
}  // namespace other

template<typename T>
void integers(long id)
{
    mc::check("integer-accessors", {id}, [] {
        std::set<__int128> s;
        auto const lo = __int128(std::numeric_limits<T>::min()), hi = __int128(std::numeric_limits<T>::max());
        if constexpr (sizeof(T) <= 2) {
            for (auto v = lo; v <= hi; ++v) {
                s.insert(v);
            }
        } else {
            for (int k = 0; k < int(sizeof(T)) * 8; ++k) {
                for (__int128 d = -40; d <= 40; ++d) {
                    s.insert((__int128(1) << k) + d);
                    s.insert(-(__int128(1) << k) + d);
                }
            }
        }
        for (auto v : s) {
            if (v < lo || v > hi) {
                continue;
            }
            auto const x = T(v);
            if (sizeof(T) < sizeof(int) || v != lo || !std::is_signed_v<T>) {
                mc::require(__int128(neo::math::abs(x)) == (v < 0 ? -v : v), "math::abs(%ld)", long(v));
            }
            if (v > 0) {
                mc::require(neo::math::log2(x) == std::log2(double(x)), "math::log2(%ld) is %.17g", long(v), double(neo::math::log2(x)));
            }
            mc::states(1);
            mc::transition(2);
            mc::trace();
        }
    });
}

template<typename F>
auto sample_floats() -> std::vector<F>
{
    std::vector<F> v{F(0), -F(0)};
    using L = std::numeric_limits<F>;
    for (int e = L::min_exponent; e < L::max_exponent; ++e) {
        for (auto m : {F(1), F(1) + L::epsilon(), F(1.25), F(1.5), F(2) - L::epsilon()}) {
            v.push_back(std::ldexp(m, e));
            v.push_back(-std::ldexp(m, e));
        }
    }
    v.push_back(L::denorm_min());
    v.push_back(L::infinity());
    v.push_back(-L::infinity());
    return v;
}

template<typename F>
void floats(long id)
{
    mc::check("float-accessors", {id}, [] {
        auto const v = sample_floats<F>();
        auto same    = [](F a, F b) { return a == b && std::signbit(a) == std::signbit(b); };
        for (auto x : v) {
            mc::require(same(neo::math::abs(x), std::abs(x)), "math::abs(%g)", double(x));
            mc::require(same(neo::math::real(x), x), "math::real(%g)", double(x));
            if (x > 0) {
                mc::require(neo::math::log2(x) == std::log2(x), "math::log2(%g) is %.17g", double(x), double(neo::math::log2(x)));
            }
            mc::require(neo::float_equality::exact(x, x) && !neo::float_equality::exact(x, std::isinf(x) ? F(0) : std::nextafter(x, F(-1000)) == x ? F(1) : std::nextafter(x, F(-1000))), "float_equality::exact(%g)", double(x));
            mc::states(1);
            mc::transition(5);
            mc::trace();
        }
        mc::require(!neo::float_equality::exact(std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::quiet_NaN()), "NaN equals NaN");
        static_assert(std::is_same_v<decltype(neo::math::abs(F{})), F> && std::is_same_v<decltype(neo::math::real(F{})), F> && std::is_same_v<decltype(neo::math::log2(F{})), F>);
    });
    mc::check("std-complex-accessors", {id}, [] {
        using Z = std::complex<F>;
        std::vector<F> v{F(0), -F(0), F(1), F(-1), F(0.1L), F(-3.75), F(1e10L), F(-1e-10L), std::numeric_limits<F>::max() / 4, std::numeric_limits<F>::min(), F(7), F(0.5), std::numeric_limits<F>::infinity()};
        for (auto a : v) {
            for (auto b : v) {
                auto const z = Z{a, b};
                mc::require(neo::math::real(z) == a && neo::math::imag(z) == b, "math::real/imag of std::complex(%g,%g)", double(a), double(b));
                mc::require(neo::math::abs(z) == std::abs(z), "math::abs of std::complex(%g,%g)", double(a), double(b));
                auto const c = neo::math::conj(z);
                mc::require(c.real() == a && c.imag() == -b && std::signbit(c.imag()) != std::signbit(b), "math::conj of std::complex(%g,%g)", double(a), double(b));
                for (auto d : v) {
                    mc::require(neo::float_equality::exact(z, Z{a, d}) == (b == d) && neo::float_equality::exact(z, Z{d, b}) == (a == d), "float_equality::exact of std::complex");
                }
                mc::states(1);
                mc::transition(4);
                mc::trace();
            }
        }
        static_assert(neo::complex<Z> && !neo::complex<F> && !neo::complex<int>);
    });
    mc::check("polar", {id}, [] {
        for (int r = -6; r <= 6; ++r) {
            for (int k = -200; k <= 200; ++k) {
                auto const rho   = std::ldexp(F(1.375), r * 4);
                auto const theta = F(k) * F(0.0714285714L);
                auto const z     = neo::math::polar(rho, theta);
                auto const w     = std::polar(rho, theta);
                mc::require(z.real() == w.real() && z.imag() == w.imag(), "math::polar(%g,%g)", double(rho), double(theta));
                mc::require(std::abs(real(z.real()) - real(rho) * std::cos(real(theta))) <= 4 * std::numeric_limits<F>::epsilon() * real(rho) && std::abs(real(z.imag()) - real(rho) * std::sin(real(theta))) <= 4 * std::numeric_limits<F>::epsilon() * real(rho), "math::polar(%g,%g) is (%g,%g)", double(rho), double(theta), double(z.real()), double(z.imag()));
                mc::states(1);
                mc::transition();
                mc::trace();
            }
        }
    });
}

void custom()
{
    mc::check("customisation", {}, [] {
        for (int i = -50; i <= 50; ++i) {
            auto const m = with_members{double(i)};
            auto const a = other::with_adl{double(i)};
            mc::require(neo::math::abs(m) == i + 1 && neo::math::conj(m) == i + 2 && neo::math::real(m) == i + 3 && neo::math::imag(m) == i + 4, "member accessors of a user type");
            mc::require(neo::math::abs(a) == i + 1 && neo::math::conj(a) == i + 2 && neo::math::real(a) == i + 3 && neo::math::imag(a) == i + 4 && neo::math::log2(a) == i + 5, "associated accessors of a user type");
            mc::require(neo::math::polar(a, other::with_adl{3}) == 10 * i + 3, "associated polar of a user type");
            mc::states(1);
            mc::transition(10);
            mc::trace();
        }
    });
}

void run()
{
    if (MC_PART == 0) {
        grid<float>(4);
        grid<double>(8);
        grid<int>(1);
#if defined(NEO_HAS_BUILTIN_FLOAT16)
        grid<_Float16>(2);
#endif
    }
    if (MC_PART == 1) {
        integers<std::int8_t>(0);
        integers<std::uint8_t>(1);
        integers<std::int16_t>(2);
        integers<std::uint16_t>(3);
        integers<std::int32_t>(4);
        integers<std::uint32_t>(5);
        integers<std::int64_t>(6);
        integers<std::uint64_t>(7);
        floats<float>(0);
        floats<double>(1);
        custom();
    }
    mc::sample("all operators on all quadruples");
}

}  // namespace

MC_MAIN(run)
