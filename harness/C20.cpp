// MC-TITLE: Integer helpers are exact for every value of every width
// MC-TECH: exhaustive enumeration of all values (all pairs) of 8- and 16-bit types, of every boundary neighbourhood of 32/64-bit types (thorough: all 2^32 values), of all bases and exponents whose power is representable, compared with 128-bit reference arithmetic
// MC-QUICK: v3 gcc v3rel
// MC-THOROUGH: gccrel sse2
// MC-PARTS: 5
// MC-OPTIONAL: 3 4
// MC-BOUNDS: bit_ceil (library and fallback), bit_log2, next_order, size: all 8/16-bit values, all values within 300 of every power of two, every 3/4 point and every limit for 32/64 bits (32-bit: all values in release thorough, every multiple of 251 in release quick). ipow: all bases -300..300 (thorough -3000..3000) x all exponents with a representable power, run-time form in eight types and compile-time form for bases -3..40 and 64, 100, 128. idiv: all 8-bit pairs, all 16-bit dividends x 700 divisors, boundary pairs of wider types. Parity: all 8/16-bit values and boundary neighbourhoods. bit_cast: all 2^32 bit patterns uint32<->float in release (boundary grid otherwise), boundary grid for 64 bits. Both run-time and constant evaluation. The bit helpers also as compiled without the standard library's versions and without the compiler's bit-cast built-in.
// MC-ASSUME: bit_ceil, next_order and size: the result is representable; bit_log2: positive argument; ipow: non-negative exponent and representable result; idiv: positive divisor, non-negative dividend, and dividend + divisor representable after integer promotion
#include "model.hpp"

// parts 3 and 4 repeat the bit helpers the way a standard library without them, or a compiler without the bit cast
// built-in, would see them
#include <algorithm>
#include <array>
#include <bit>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstring>
#include <functional>
#include <limits>
#include <numbers>
#include <set>
#include <string_view>
#include <type_traits>
#if MC_PART >= 3
    #undef __cpp_lib_bit_cast
    #undef __cpp_lib_int_pow2
#endif
#if MC_PART == 4
    #undef __has_builtin
    #define __has_builtin(x) 0
#endif

#include <neo/bit.hpp>
#include <neo/fft/order.hpp>
#include <neo/math.hpp>

namespace {

using i128 = __int128;

bool release() { return std::string_view{MC_CONFIG}.find("rel") != std::string_view::npos; }

template<typename T>
constexpr auto max_of = i128(std::numeric_limits<T>::max());
template<typename T>
constexpr auto min_of = i128(std::numeric_limits<T>::min());

/// all values for narrow types, boundary neighbourhoods for wide ones
template<typename T>
auto domain() -> std::vector<T>
{
    std::set<i128> s;
    if constexpr (sizeof(T) <= 2) {
        for (i128 v = min_of<T>; v <= max_of<T>; ++v) {
            s.insert(v);
        }
    } else {
        auto around = [&](i128 c) {
            for (i128 d = -300; d <= 300; ++d) {
                if (c + d >= min_of<T> && c + d <= max_of<T>) {
                    s.insert(c + d);
                }
            }
        };
        for (int k = 0; k <= int(sizeof(T)) * 8; ++k) {
            for (i128 sign : {-1, 1}) {
                around(sign * (i128(1) << k));
                around(sign * (i128(3) << k) / 4);
                around(sign * (i128(5) << k) / 7);
            }
        }
        around(min_of<T>);
        around(max_of<T>);
    }
    std::vector<T> v;
    for (auto x : s) {
        v.push_back(T(x));
    }
    return v;
}

auto str(i128 v) -> std::string
{
    auto neg = v < 0;
    auto u   = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string r;
    do {
        r.insert(r.begin(), char('0' + int(u % 10)));
        u /= 10;
    } while (u != 0);
    return neg ? "-" + r : r;
}

void expect(char const* what, std::string const& args, i128 got, i128 want)
{
    if (got != want) {
        mc::fail("%s(%s) is %s, expected %s", what, args.c_str(), str(got).c_str(), str(want).c_str());
    }
}

[[gnu::noinline]] void expect_power(char const* what, int width, int base, int e, i128 got, i128 want)
{
    if (got != want) [[unlikely]] {
        expect(what, str(base) + "," + str(e) + " in " + std::to_string(width) + " bits", got, want);
    }
}

[[gnu::noinline]] void expect_quotient(i128 x, i128 y, i128 got)
{
    if (got != (x + y - 1) / y) [[unlikely]] {
        expect("idiv", str(x) + "," + str(y), got, (x + y - 1) / y);
    }
}

template<typename U>
void powers_one(U x)
{
    // reference: smallest power of two >= x, and floor(log2 x)
    i128 p = 1;
    int k  = 0;
    while (p < i128(x)) {
        p *= 2;
        ++k;
    }
    auto bad = false;
    if (p <= max_of<U>) {
        bad |= i128(neo::bit_ceil(x)) != p;
        bad |= i128(neo::detail::bit_ceil_fallback(x)) != p;
        if (x > 0) {
            bad |= i128(neo::fft::next_order(x)) != k;
            bad |= i128(neo::fft::size(U(k))) != p;
        }
    }
    if (x > 0) {
        bad |= i128(neo::bit_log2(x)) != (p == i128(x) ? k : k - 1);
    }
    if (bad) {
        auto const a = std::to_string(sizeof(U) * 8) + " bit " + str(x);
        if (p <= max_of<U>) {
            expect("bit_ceil", a, neo::bit_ceil(x), p);
            expect("bit_ceil_fallback", a, neo::detail::bit_ceil_fallback(x), p);
            if (x > 0) {
                expect("next_order", a, neo::fft::next_order(x), k);
                expect("fft::size", str(k), neo::fft::size(U(k)), p);
            }
        }
        expect("bit_log2", a, neo::bit_log2(x), p == i128(x) ? k : k - 1);
    }
}

template<typename U>
void powers(long id)
{
    static_assert(std::is_unsigned_v<U>);
    using S = std::make_signed_t<U>;
    mc::check("powers", {id}, [] {
        auto const d = domain<U>();
        for (auto x : d) {
            powers_one<U>(x);
        }
        mc::states(d.size());
        mc::transition(5 * d.size());
        mc::trace(d.size());
    });
    mc::check("orders-signed", {id}, [] {
        auto const d = domain<S>();
        std::uint64_t n = 0;
        for (auto x : d) {
            if (x <= 0) {
                continue;
            }
            int k  = 0;
            i128 p = 1;
            while (p < i128(x)) {
                p *= 2;
                ++k;
            }
            expect("next_order (signed)", str(x), neo::fft::next_order(x), k);
            if (p <= max_of<S>) {
                expect("fft::size (signed)", str(k), neo::fft::size(S(k)), p);
                expect("fft::next_order(fft::size)", str(k), neo::fft::next_order(neo::fft::size(S(k))), k);
            }
            ++n;
        }
        mc::states(n);
        mc::transition(3 * n);
        mc::trace(n);
    });
    if constexpr (sizeof(U) == 4) {
        if (release()) {
            auto const step = std::uint64_t(mc::thorough() ? 1 : 251);
            for (std::uint64_t slice = 0; slice < 64; ++slice) {
                mc::check("powers-all", {id, long(slice)}, [&] {
                    std::uint64_t n = 0;
                    for (auto x = slice << 26; x < (slice + 1) << 26; x += step) {
                        powers_one<U>(U(x));
                        ++n;
                    }
                    mc::states(n);
                    mc::transition(5 * n);
                    mc::trace(n);
                });
            }
        }
    }
}

// --- ipow ------------------------------------------------------------------------------------------------------
template<typename T>
void ipow_runtime(long id)
{
    auto const limit = mc::thorough() ? 3000 : 300;
    mc::check("ipow", {id}, [&] {
        for (int base = std::is_signed_v<T> ? -limit : 0; base <= limit; ++base) {
            if (i128(base) < min_of<T> || i128(base) > max_of<T>) {
                continue;
            }
            i128 p = 1;
            for (int e = 0; e <= 130 && i128(e) <= max_of<T>; ++e) {
                expect_power("ipow", int(sizeof(T)) * 8, base, e, neo::ipow(T(base), T(e)), p);
                mc::states(1);
                mc::transition();
                mc::trace();
                p *= base;
                if (p > max_of<T> || p < min_of<T>) {
                    break;
                }
            }
        }
    });
}

template<typename T, int Base>
void ipow_static_one()
{
    if constexpr (i128(Base) >= min_of<T> && i128(Base) <= max_of<T>) {
        i128 p = 1;
        for (int e = 0; e <= 130 && i128(e) <= max_of<T>; ++e) {
            expect_power("ipow<base>", int(sizeof(T)) * 8, Base, e, neo::ipow<T(Base)>(T(e)), p);
            mc::states(1);
            mc::transition();
            mc::trace();
            p *= Base;
            if (p > max_of<T> || p < min_of<T>) {
                break;
            }
        }
    }
}

template<typename T, int... I>
void ipow_static(long id, std::integer_sequence<int, I...>)
{
    mc::check("ipow-static", {id}, [] {
        (ipow_static_one<T, I>(), ...);
        ipow_static_one<T, -1>();
        ipow_static_one<T, -2>();
        ipow_static_one<T, -3>();
        ipow_static_one<T, 64>();
        ipow_static_one<T, 100>();
        ipow_static_one<T, 128>();
    });
}

// constant evaluation agrees with run-time evaluation
template<typename T>
constexpr auto constant_checks() -> bool
{
    auto ok = true;
    if constexpr (std::is_unsigned_v<T>) {
        ok = ok && neo::bit_ceil(T(65)) == T(128) && neo::detail::bit_ceil_fallback(T(65)) == T(128) && neo::bit_log2(T(127)) == T(6);
    }
    ok = ok && neo::fft::next_order(T(33)) == T(6) && neo::fft::size(T(5)) == T(32) && neo::ipow<T(2)>(T(6)) == T(64) && neo::ipow(T(5), T(3)) == T(125);
    ok = ok && neo::idiv(T(100), T(7)) == T(15) && neo::is_even(T(4)) && neo::is_odd(T(7)) && !neo::is_even(T(7)) && !neo::is_odd(T(4));
    return ok;
}

// --- idiv, parity ------------------------------------------------------------------------------------------------
template<typename T>
void division(long id)
{
    // values that survive x + y - 1 in the type the expression is evaluated in
    using P = decltype(T(1) + T(1));
    auto one = [](i128 x, i128 y) {
        if (x + y > max_of<P>) {
            return;
        }
        expect_quotient(x, y, neo::idiv(T(x), T(y)));
        mc::states(1);
        mc::transition();
        mc::trace();
    };
    if constexpr (sizeof(T) == 1) {
        mc::check("idiv", {id}, [&] {
            for (i128 x = 0; x <= max_of<T>; ++x) {
                for (i128 y = 1; y <= max_of<T>; ++y) {
                    one(x, y);
                }
            }
        });
    } else {
        mc::check("idiv-boundary", {id}, [&] {
            std::set<i128> edge;
            for (int k = 0; k <= int(sizeof(T)) * 8; ++k) {
                for (i128 d = -3; d <= 3; ++d) {
                    edge.insert((i128(1) << k) + d);
                    edge.insert((i128(3) << k) / 4 + d);
                }
            }
            for (auto x : edge) {
                for (auto y : edge) {
                    if (x >= 0 && y > 0 && x <= max_of<T> && y <= max_of<T>) {
                        one(x, y);
                    }
                }
            }
            for (i128 x = 0; x <= 1500; ++x) {
                for (i128 y = 1; y <= 200; ++y) {
                    one(x, y);
                }
            }
        });
    }
    if constexpr (sizeof(T) == 2) {
        for (long slice = 0; slice < 8; ++slice) {
            mc::check("idiv-lines", {id, slice}, [&] {
                for (i128 y = 1; y <= 700; ++y) {
                    if (y % 8 == slice) {
                        for (i128 x = 0; x <= max_of<T>; x += release() || mc::thorough() ? 1 : 7) {
                            one(x, y);
                        }
                    }
                }
            });
        }
    }
    mc::check("parity", {id}, [&] {
        auto const d = domain<T>();
        for (auto x : d) {
            auto const even = i128(x) % 2 == 0;
            mc::require(neo::is_even(x) == even && neo::is_odd(x) == !even, "parity of %s: is_even %d is_odd %d", str(x).c_str(), neo::is_even(x), neo::is_odd(x));
        }
        mc::states(d.size());
        mc::transition(2 * d.size());
        mc::trace(d.size());
    });
    mc::check("constant-evaluation", {id}, [] {
        constexpr auto c = constant_checks<T>();
        mc::require(c, "constant evaluation of the integer helpers");
        mc::require(constant_checks<T>(), "run-time evaluation of the integer helpers");
    });
}

// --- bit_cast ------------------------------------------------------------------------------------------------------
void casts()
{
    auto one32 = [](std::uint32_t u) {
        auto const f = neo::bit_cast<float>(u);
        std::uint32_t back;
        std::memcpy(&back, &f, 4);
        if (back != u || neo::bit_cast<std::uint32_t>(f) != u || neo::bit_cast<std::int32_t>(u) != std::int32_t(u)) {
            mc::fail("bit_cast of %08x through float gives %08x", u, back);
        }
    };
    for (long slice = 0; slice < 64; ++slice) {
        mc::check("bit-cast-32", {slice}, [&] {
            auto const step = release() ? 1U : 4093U;
            std::uint64_t n = 0;
            for (std::uint64_t u = std::uint64_t(slice) << 26; u < std::uint64_t(slice + 1) << 26; u += step) {
                one32(std::uint32_t(u));
                ++n;
            }
            mc::states(n);
            mc::transition(2 * n);
            mc::trace(n);
        });
    }
    mc::check("bit-cast-64", {}, [] {
        auto const d = domain<std::uint64_t>();
        for (auto u : d) {
            auto const f = neo::bit_cast<double>(u);
            mc::require(std::memcmp(&f, &u, 8) == 0 && neo::bit_cast<std::uint64_t>(f) == u, "bit_cast of a 64-bit pattern");
            auto const a = neo::bit_cast<std::array<std::uint8_t, 8>>(u);
            mc::require(std::memcmp(a.data(), &u, 8) == 0 && neo::bit_cast<std::uint64_t>(a) == u, "bit_cast to bytes");
        }
        mc::states(d.size());
        mc::transition(4 * d.size());
        mc::trace(d.size());
    });
}

template<typename T>
void type(long id)
{
    if (MC_PART == 3) {
        if constexpr (std::is_unsigned_v<T>) {
            powers<T>(id);
        }
    }
    if (MC_PART == 0) {
        if constexpr (std::is_unsigned_v<T>) {
            powers<T>(id);
        }
        division<T>(id);
    }
    if (MC_PART == 1) {
        ipow_runtime<T>(id);
        ipow_static<T>(id, std::make_integer_sequence<int, 41>{});
    }
}

void run()
{
    type<std::uint8_t>(0);
    type<std::uint16_t>(1);
    type<std::uint32_t>(2);
    type<std::uint64_t>(3);
    type<std::int8_t>(4);
    type<std::int16_t>(5);
    type<std::int32_t>(6);
    type<std::int64_t>(7);
    type<unsigned long long>(8);
    type<long long>(9);
    if (MC_PART == 2 || MC_PART == 3 || MC_PART == 4) {
        casts();
    }
    mc::sample("bit_ceil, bit_log2, next_order, ipow, idiv, parity, bit_cast");
}

}  // namespace

MC_MAIN(run)
