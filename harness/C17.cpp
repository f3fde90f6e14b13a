// MC-TITLE: Scalar fixed-point arithmetic saturates and never wraps
// MC-TECH: exhaustive enumeration of operand pairs (all 2^16 8-bit pairs for every fraction width, all 2^32 16-bit pairs) and of floating-point inputs (all finite floats), compared with 64-bit integer reference arithmetic
// MC-QUICK: v3 v3rel
// MC-THOROUGH: neon gccrel gcc sse2rel sse2
// MC-PARTS: 4
// MC-BOUNDS: 8-bit: all pairs, all 8 fraction widths. 16-bit: all 2^32 pairs for 15 fractional bits in the release configurations, every value x a 300-value boundary set (both orders) for all 16 fraction widths (thorough: all 2^32 pairs for all 16 widths). Float input: all 2^32 bit patterns that are finite for 7 and 15 fractional bits in release, all exponents x 2^9 leading mantissas x neighbours for every width (thorough: all floats, all widths); doubles at every code, half code and their neighbours and at every power of two. Complex: all quadruples over boundary alphabets of 12 values (thorough 24), and every value in each of the four components with the others on a small alphabet.
// MC-ASSUME: finite inputs; fractional bits between 0 and the number of value bits; the complex product is provided for 16-bit storage only (other widths do not compile)
#include "model.hpp"

#include <neo/fixed_point.hpp>

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <compare>
#include <cstring>
#include <limits>
#include <set>
#include <string_view>

namespace {

bool release() { return std::string_view{MC_CONFIG}.find("rel") != std::string_view::npos; }

template<typename Int>
constexpr auto lo = std::int64_t(std::numeric_limits<Int>::min());
template<typename Int>
constexpr auto hi = std::int64_t(std::numeric_limits<Int>::max());

template<typename Int>
auto sat(std::int64_t v) -> std::int64_t
{
    return v < lo<Int> ? lo<Int> : v > hi<Int> ? hi<Int> : v;
}

/// floor(v / 2^f) without relying on the shift of negative numbers
auto floor_div(std::int64_t v, int f) -> std::int64_t
{
    auto const d = std::int64_t(1) << f;
    auto q       = v / d;
    if (v % d < 0) {
        --q;
    }
    return q;
}

template<typename Int, int F>
using fx = neo::fixed_point<Int, F>;

template<typename Int, int F>
auto make(std::int64_t v) -> fx<Int, F>
{
    return fx<Int, F>{neo::underlying_value, static_cast<Int>(v)};
}

template<typename Int, int F>
[[noreturn]] [[gnu::noinline, gnu::cold]] void bad(std::int64_t a, std::int64_t b)
{
    auto const x = make<Int, F>(a);
    auto const y = make<Int, F>(b);
    mc::fail(
        "int%zu.%d operands %ld and %ld: sum %d (expected %ld), difference %d (%ld), product %d (%ld), "
        "== %d != %d < %d <= %d > %d >= %d",
        sizeof(Int) * 8, F, long(a), long(b), int((x + y).value()), long(sat<Int>(a + b)), int((x - y).value()),
        long(sat<Int>(a - b)), int((x * y).value()), long(sat<Int>(floor_div(a * b, F))), x == y, x != y, x < y, x <= y,
        x > y, x >= y
    );
}

template<typename Int, int F>
[[gnu::always_inline]] inline auto ok(std::int64_t a, std::int64_t b) -> bool
{
    auto const x = make<Int, F>(a);
    auto const y = make<Int, F>(b);
    auto good = true;
    good &= (x + y).value() == sat<Int>(a + b);
    good &= (x - y).value() == sat<Int>(a - b);
    good &= (x * y).value() == sat<Int>((a * b) >> F);  // arithmetic shift of a 64-bit value: floor
    good &= (x == y) == (a == b);
    good &= (x != y) == (a != b);
    good &= (x < y) == (a < b);
    good &= (x <= y) == (a <= b);
    good &= (x > y) == (a > b);
    good &= (x >= y) == (a >= b);
    return good;
}

template<typename Int>
auto boundary() -> std::vector<std::int64_t>
{
    std::set<std::int64_t> s;
    for (int k = 0; k <= int(sizeof(Int)) * 8; ++k) {
        for (auto sign : {-1, 1}) {
            for (std::int64_t d = -2; d <= 2; ++d) {
                s.insert(sat<Int>(sign * (std::int64_t(1) << k) + d));
                s.insert(sat<Int>(sign * ((std::int64_t(1) << k) * 3 / 4) + d));
            }
        }
    }
    return {s.begin(), s.end()};
}

// ---------------------------------------------------------------------------------------------------------------
template<typename Int, int F>
void unary()
{
    mc::check("unary", {long(sizeof(Int)), F}, [] {
        using T = fx<Int, F>;
        mc::require(T::fractional_bits == F && T::integer_bits == int(sizeof(Int) * 8 - 1) - F, "bit counts");
        for (auto a = lo<Int>; a <= hi<Int>; ++a) {
            auto const x = make<Int, F>(a);
            mc::require(x.value() == a, "value() of %ld is %d", long(a), int(x.value()));
            mc::require((+x).value() == a, "+(%ld) is %d", long(a), int((+x).value()));
            mc::require((-x).value() == sat<Int>(-a), "-(%ld) is %d", long(a), int((-x).value()));
            auto const exact = std::ldexp(double(a), -F);
            mc::require(double(neo::to_float(x)) == exact, "to_float of %ld/2^%d is %.9g", long(a), F, double(neo::to_float(x)));
            mc::require(neo::to_double(x) == exact, "to_double of %ld/2^%d is %.17g", long(a), F, neo::to_double(x));
            mc::require(double(static_cast<float>(x)) == exact && static_cast<double>(x) == exact && static_cast<long double>(x) == (long double)exact, "conversion of %ld/2^%d", long(a), F);
            mc::require(T{neo::to_float(x)}.value() == a, "float round trip of %ld/2^%d gives %d", long(a), F, int(T{neo::to_float(x)}.value()));
            mc::require(T{neo::to_double(x)}.value() == a, "double round trip of %ld/2^%d gives %d", long(a), F, int(T{neo::to_double(x)}.value()));
        }
        mc::states(std::uint64_t(hi<Int> - lo<Int> + 1));
        mc::transition(8 * std::uint64_t(hi<Int> - lo<Int> + 1));
        mc::trace(std::uint64_t(hi<Int> - lo<Int> + 1));
    });
}

template<int F>
void pairs8()
{
    mc::check("pairs8", {F}, [] {
        for (auto a = lo<std::int8_t>; a <= hi<std::int8_t>; ++a) {
            for (auto b = lo<std::int8_t>; b <= hi<std::int8_t>; ++b) {
                if (!ok<std::int8_t, F>(a, b)) {
                    bad<std::int8_t, F>(a, b);
                }
            }
        }
        mc::states(65536);
        mc::transition(9 * 65536);
        mc::trace(65536);
    });
}

template<int F>
void pairs16_boundary()
{
    for (long half = 0; half < 4; ++half) {
        mc::check("pairs16-boundary", {F, half}, [&] {
            auto const set = boundary<std::int16_t>();
            auto const from = lo<std::int16_t> + half * 16384;
            for (auto b : set) {
                for (auto a = from; a < from + 16384; ++a) {
                    if (!ok<std::int16_t, F>(a, b)) {
                        bad<std::int16_t, F>(a, b);
                    }
                    if (!ok<std::int16_t, F>(b, a)) {
                        bad<std::int16_t, F>(b, a);
                    }
                }
            }
            mc::states(set.size() * 32768);
            mc::transition(set.size() * 32768 * 9);
            mc::trace(set.size() * 32768);
        });
    }
}

template<int F>
void pairs16_all()
{
    for (long slice = 0; slice < 128; ++slice) {
        mc::check("pairs16", {F, slice}, [&] {
            auto const from = lo<std::int16_t> + slice * 512;
            for (auto a = from; a < from + 512; ++a) {
                for (std::int64_t b0 = lo<std::int16_t>; b0 <= hi<std::int16_t>; b0 += 256) {
                    auto good = true;
                    for (int j = 0; j < 256; ++j) {
                        auto const b = int(b0) + j;
                        auto const x = make<std::int16_t, F>(a);
                        auto const y = make<std::int16_t, F>(b);
                        auto const clamp = [](int v) { return v < -32768 ? -32768 : v > 32767 ? 32767 : v; };
                        auto const ia = int(a);
                        good &= (x + y).value() == clamp(ia + b);
                        good &= (x - y).value() == clamp(ia - b);
                        good &= (x * y).value() == clamp((ia * b) >> F);
                        good &= (x < y) == (ia < b);
                        good &= (x <= y) == (ia <= b);
                        good &= (x > y) == (ia > b);
                        good &= (x >= y) == (ia >= b);
                        good &= (x == y) == (ia == b);
                        good &= (x != y) == (ia != b);
                    }
                    if (!good) {
                        for (int j = 0; j < 256; ++j) {
                            if (!ok<std::int16_t, F>(a, b0 + j)) {
                                bad<std::int16_t, F>(a, b0 + j);
                            }
                        }
                    }
                }
            }
            mc::states(std::uint64_t(512) * 65536);
            mc::transition(std::uint64_t(512) * 65536 * 9);
            mc::trace(std::uint64_t(512) * 65536);
        });
    }
}

// ---------------------------------------------------------------------------------------------------------------
template<typename Int, int F>
[[gnu::always_inline]] inline auto from_float_expected(double f) -> int
{
    auto v = f * double(1 << F);  // exact: a power of two times a float, far from the limits of double
    v      = v < double(lo<Int>) ? double(lo<Int>) : v > double(hi<Int>) ? double(hi<Int>) : v;
    return int(v);  // toward zero
}

template<typename Int, int F>
void one_float(float f)
{
    auto const got  = fx<Int, F>{f}.value();
    auto const want = from_float_expected<Int, F>(double(f));
    mc::require(got == want, "int%zu.%d from float %.9g (%a) is %d, expected %d", sizeof(Int) * 8, F, double(f), double(f), int(got), want);
}

auto as_float(std::uint32_t u) -> float
{
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}

template<typename Int, int F>
void floats_grid()
{
    mc::check("floats-grid", {long(sizeof(Int)), F}, [] {
        std::uint64_t n = 0;
        for (std::uint32_t top = 0; top < (1U << 18); ++top) {
            for (std::uint32_t low : {0U, 1U, 0x1fffU, 0x3fffU}) {
                auto const f = as_float((top << 14) | low);
                if (std::isfinite(f)) {
                    one_float<Int, F>(f);
                    ++n;
                }
            }
        }
        for (auto a = 2 * lo<Int> - 4; a <= 2 * hi<Int> + 4; ++a) {  // every code and every half code with neighbours
            auto const f = float(std::ldexp(double(a) / 2, -F));
            for (auto g : {f, std::nextafterf(f, -INFINITY), std::nextafterf(f, INFINITY)}) {
                one_float<Int, F>(g);
                ++n;
            }
        }
        mc::states(n);
        mc::transition(n);
        mc::trace(n);
    });
    mc::check("doubles-grid", {long(sizeof(Int)), F}, [] {
        std::uint64_t n = 0;
        auto one        = [&](double d) {
            ++n;
            auto const got = int(fx<Int, F>{d}.value());
            // a double that is not a float may be converted directly or through the nearest float
            auto const direct = from_float_expected<Int, F>(std::clamp(d, -1e6, 1e6));
            auto const via    = from_float_expected<Int, F>(double(float(std::clamp(d, -1e6, 1e6))));
            mc::require(got == direct || got == via, "int%zu.%d from double %.17g is %d, expected %d", sizeof(Int) * 8, F, d, got, direct);
            // long double takes the same route
            auto const gotl = int(fx<Int, F>{static_cast<long double>(d)}.value());
            mc::require(gotl == direct || gotl == via, "int%zu.%d from long double %.17g is %d, expected %d", sizeof(Int) * 8, F, d, gotl, direct);
        };
        for (auto a = 2 * lo<Int> - 4; a <= 2 * hi<Int> + 4; ++a) {
            auto const d = std::ldexp(double(a) / 2, -F);
            for (auto g : {d, std::nextafter(d, -INFINITY), std::nextafter(d, INFINITY)}) {
                one(g);
            }
        }
        for (int e = -1074; e <= 127; ++e) {
            one(std::ldexp(1.0, e));
            one(-std::ldexp(1.0, e));
            one(std::ldexp(1.75, e) < double(FLT_MAX) ? std::ldexp(1.75, e) : double(FLT_MAX));
            one(-(std::ldexp(1.75, e) < double(FLT_MAX) ? std::ldexp(1.75, e) : double(FLT_MAX)));
        }
        mc::states(n);
        mc::transition(2 * n);
        mc::trace(n);
    });
}

template<typename Int, int F>
void floats_all()
{
    for (std::uint32_t slice = 0; slice < 128; ++slice) {
        mc::check("floats", {long(sizeof(Int)), F, long(slice)}, [&] {
            std::uint64_t n = 0;
            auto const from = slice << 25;
            for (std::uint32_t b0 = 0; b0 < (1U << 25); b0 += 256) {
                auto const base = from + b0;
                if ((base & 0x7f800000U) == 0x7f800000U) {
                    continue;  // infinities and NaN
                }
                auto good = true;
                for (std::uint32_t j = 0; j < 256; ++j) {
                    auto const f = as_float(base + j);
                    good &= int(fx<Int, F>{f}.value()) == from_float_expected<Int, F>(double(f));
                }
                if (!good) {
                    for (std::uint32_t j = 0; j < 256; ++j) {
                        one_float<Int, F>(as_float(base + j));
                    }
                }
                n += 256;
            }
            mc::states(n);
            mc::transition(n);
            mc::trace(n);
        });
    }
}

// ---------------------------------------------------------------------------------------------------------------
template<typename Int, int F>
void complex_one(std::int64_t a, std::int64_t b, std::int64_t c, std::int64_t d)
{
    using T = neo::fixed_point_complex<fx<Int, F>>;
    auto const x = T{make<Int, F>(a), make<Int, F>(b)};
    auto const y = T{make<Int, F>(c), make<Int, F>(d)};
    auto expect  = [&](char const* what, T z, std::int64_t re, std::int64_t im) {
        mc::require(
            z.real().value() == re && z.imag().value() == im, "int%zu.%d complex (%ld,%ld) %s (%ld,%ld) is (%d,%d), expected (%ld,%ld)",
            sizeof(Int) * 8, F, long(a), long(b), what, long(c), long(d), int(z.real().value()), int(z.imag().value()), long(re), long(im)
        );
    };
    expect("itself before", x, a, b);
    expect("+", x + y, sat<Int>(a + c), sat<Int>(b + d));
    expect("-", x - y, sat<Int>(a - c), sat<Int>(b - d));
    if constexpr (sizeof(Int) == 2) {
        // the product is scaled down by four: every partial product is floor(p / 2^17)
        expect("*", x * y, floor_div(a * c, 17) - floor_div(b * d, 17), floor_div(a * d, 17) + floor_div(b * c, 17));
    }
}

template<typename Int, int F>
void complex_all()
{
    auto alphabet = [](int n) {
        std::vector<std::int64_t> v;
        auto const h = hi<Int>;
        for (auto x : {-h - 1, -h, std::int64_t(-1), std::int64_t(0), std::int64_t(1), h, h / 2, -h / 2 - 1, h / 3, -h / 5, h / 7, -h / 11,
                       h - 1, -h + 1, std::int64_t(2), std::int64_t(-2), h / 4, h / 4 + 1, -h / 4, -h / 4 - 1, h / 2 + 1, std::int64_t(3), std::int64_t(-3), 2 * h / 3}) {
            v.push_back(x);
        }
        v.resize(std::size_t(n));
        return v;
    };
    auto const quad = alphabet(mc::thorough() ? 24 : 12);
    for (std::size_t i = 0; i < quad.size(); ++i) {
        mc::check("complex-quads", {long(sizeof(Int)), F, long(i)}, [&] {
            for (auto b : quad) {
                for (auto c : quad) {
                    for (auto d : quad) {
                        complex_one<Int, F>(quad[i], b, c, d);
                    }
                }
            }
            auto const n = quad.size() * quad.size() * quad.size();
            mc::states(n);
            mc::transition(3 * n);
            mc::trace(n);
        });
    }
    for (long pos = 0; pos < 4; ++pos) {
        mc::check("complex-line", {long(sizeof(Int)), F, pos}, [&] {
            auto const few = alphabet(mc::thorough() ? 9 : 4);
            std::uint64_t n = 0;
            for (auto v = lo<Int>; v <= hi<Int>; ++v) {
                for (auto p : few) {
                    for (auto q : few) {
                        std::int64_t w[4] = {p, q, q, p};
                        w[pos]            = v;
                        complex_one<Int, F>(w[0], w[1], w[2], w[3]);
                        ++n;
                    }
                }
            }
            mc::states(n);
            mc::transition(3 * n);
            mc::trace(n);
        });
    }
    mc::check("complex-access", {long(sizeof(Int)), F}, [] {
        using T = neo::fixed_point_complex<fx<Int, F>>;
        static_assert(neo::complex<T>);
        for (auto v = lo<Int>; v <= hi<Int>; ++v) {
            auto z = T{make<Int, F>(v)};
            mc::require(z.real().value() == v && z.imag().value() == 0, "construction from a real part");
            z.imag(make<Int, F>(v));
            z.real(make<Int, F>(sat<Int>(-v)));
            mc::require(z.real().value() == sat<Int>(-v) && z.imag().value() == v, "assignment of parts");
            mc::require(T{}.real().value() == 0 && T{}.imag().value() == 0, "default construction");
        }
        mc::states(std::uint64_t(hi<Int> - lo<Int> + 1));
        mc::trace(std::uint64_t(hi<Int> - lo<Int> + 1));
    });
}

template<typename Int, int... F>
void all_widths(std::integer_sequence<int, F...>)
{
    (unary<Int, F>(), ...);
    (floats_grid<Int, F>(), ...);
    if (release() && mc::thorough()) {
        (floats_all<Int, F>(), ...);
    }
}

template<int... F>
void p8(std::integer_sequence<int, F...>)
{
    (pairs8<F>(), ...);
}

template<int... F>
void p16(std::integer_sequence<int, F...>)
{
    (pairs16_boundary<F>(), ...);
    if (release() && mc::thorough()) {
        (pairs16_all<F>(), ...);
    }
}

void run()
{
    if (MC_PART == 0) {
        p8(std::make_integer_sequence<int, 8>{});
        all_widths<std::int8_t>(std::make_integer_sequence<int, 8>{});
        complex_all<std::int8_t, 7>();
        complex_all<std::int8_t, 5>();
        complex_all<std::int16_t, 15>();
    }
    if (MC_PART == 1) {
        all_widths<std::int16_t>(std::make_integer_sequence<int, 16>{});
    }
    if (MC_PART == 2) {
        p16(std::make_integer_sequence<int, 16>{});
    }
    if (MC_PART == 3 && release() && !mc::thorough()) {
        pairs16_all<15>();
        floats_all<std::int8_t, 7>();
        floats_all<std::int16_t, 15>();
    }
    mc::sample("q7 pairs, q15 pairs, all floats -> codes, complex quadruples");
}

}  // namespace

MC_MAIN(run)
