// MC-TITLE: Vectorised fixed-point arithmetic agrees with scalar arithmetic
// MC-TECH: exhaustive enumeration of operand pairs in every SIMD lane, of lengths around the SIMD width, alignments and aliasing patterns, for every instruction set, compared with 64-bit integer reference arithmetic
// MC-QUICK: v3 sse2 sse41 avx512 neon v3rel
// MC-THOROUGH: neonrel avx512rel sse41rel sse2rel gcc gccrel
// MC-PARTS: 3
// MC-BOUNDS: 8-bit: all pairs in every lane for all 8 fraction widths. 16-bit: every value x a 170-value boundary set in both orders for all 16 fraction widths; all 2^32 pairs for 15 fractional bits in the release configurations (thorough: for all 16 widths). Lengths 0..70 (thorough 0..200) and 17 lengths from 127 to 70001 x operand alignments x five aliasing patterns (distinct, output over the left, right or both operands, all three equal); static and dynamic extents; every batch type of the instruction set with every lane holding a different pair; in-bounds accesses checked with the address sanitizer and guard elements.
// MC-ASSUME: operand and output spans have equal length; spans are either identical or disjoint
#include "model.hpp"

#include <neo/fixed_point.hpp>

#include <array>
#include <memory>
#include <set>
#include <span>
#include <string_view>

namespace {

bool release() { return std::string_view{MC_CONFIG}.find("rel") != std::string_view::npos; }

template<typename Int>
constexpr auto lo = int(std::numeric_limits<Int>::min());
template<typename Int>
constexpr auto hi = int(std::numeric_limits<Int>::max());

template<typename Int, int F>
using fx = neo::fixed_point<Int, F>;

#define MC_PLAIN __attribute__((no_sanitize("address", "undefined")))

enum op { add, sub, mul };
constexpr char const* names[] = {"add", "subtract", "multiply"};

template<typename Int>
MC_PLAIN auto clamp(int v) -> int
{
    return v < lo<Int> ? lo<Int> : v > hi<Int> ? hi<Int> : v;
}

/// may `r` be the result of `o` on a and b?
template<typename Int, int F>
MC_PLAIN inline auto allowed(op o, int a, int b, int r) -> bool
{
    if (o == add) {
        return r == clamp<Int>(a + b);
    }
    if (o == sub) {
        return r == clamp<Int>(a - b);
    }
    auto const exact = clamp<Int>((a * b) >> F);
    if constexpr (sizeof(Int) == 2 && F == 15) {
        return (r == exact) | (r == clamp<Int>((a * b + (1 << 14)) >> 15));
    }
    return r == exact;
}

template<typename Int, int F>
auto make(int v) -> fx<Int, F>
{
    return fx<Int, F>{neo::underlying_value, static_cast<Int>(v)};
}

template<typename Int, int F, std::size_t E = std::dynamic_extent>
void call(op o, std::span<fx<Int, F> const, E> l, std::span<fx<Int, F> const, E> r, std::span<fx<Int, F>, E> out)
{
    if (o == add) {
        neo::add(l, r, out);
    } else if (o == sub) {
        neo::subtract(l, r, out);
    } else {
        neo::multiply(l, r, out);
    }
}

template<typename Int>
auto boundary() -> std::vector<int>
{
    std::set<int> s;
    for (int k = 0; k <= int(sizeof(Int)) * 8; ++k) {
        for (auto sign : {-1, 1}) {
            for (int d = -2; d <= 2; ++d) {
                s.insert(clamp<Int>(sign * (1 << k) + d));
                s.insert(clamp<Int>(sign * ((1 << k) / 4 * 3) + d));
            }
        }
    }
    return {s.begin(), s.end()};
}

template<typename Int, int F>
MC_PLAIN auto all_allowed(op o, Int const* l, Int const* r, Int const* out, std::size_t n) -> bool
{
    auto good = true;
    if (o == add) {
        for (std::size_t i = 0; i < n; ++i) {
            good &= allowed<Int, F>(add, l[i], r[i], out[i]);
        }
    } else if (o == sub) {
        for (std::size_t i = 0; i < n; ++i) {
            good &= allowed<Int, F>(sub, l[i], r[i], out[i]);
        }
    } else {
        for (std::size_t i = 0; i < n; ++i) {
            good &= allowed<Int, F>(mul, l[i], r[i], out[i]);
        }
    }
    return good;
}

template<typename Int, int F>
void compare(op o, std::vector<fx<Int, F>> const& l, std::vector<fx<Int, F>> const& r, fx<Int, F> const* out, char const* how)
{
    auto const n = l.size();
    static_assert(sizeof(fx<Int, F>) == sizeof(Int));
    auto const raw = [](auto const* p) { return reinterpret_cast<Int const*>(p); };
    if (!all_allowed<Int, F>(o, raw(l.data()), raw(r.data()), raw(out), n)) {
        for (std::size_t i = 0; i < n; ++i) {
            if (!allowed<Int, F>(o, l[i].value(), r[i].value(), out[i].value())) {
                auto const s = o == add ? l[i] + r[i] : o == sub ? l[i] - r[i] : l[i] * r[i];
                mc::fail("%s int%zu.%d %s: element %zu of %zu: %d and %d give %d, scalar result %d", names[o], sizeof(Int) * 8, F, how, i, n, int(l[i].value()), int(r[i].value()), int(out[i].value()), int(s.value()));
            }
        }
    }
}

/// exactly n elements on the heap, misaligned by `shift` elements; the sanitizer sees the end, guards see both sides
template<typename T>
struct arena
{
    std::unique_ptr<T[]> mem;
    std::size_t n, shift, tail;
    arena(std::size_t size, std::size_t sh, std::size_t t = 0) : mem{new T[sh + size + t]}, n{size}, shift{sh}, tail{t}
    {
        for (std::size_t i = 0; i < sh + size + t; ++i) {
            mem[i] = guard(i);
        }
    }
    static auto guard(std::size_t i) -> T { return T{neo::underlying_value, static_cast<typename T::storage_type>(0x55 ^ (i * 7))}; }
    auto data() -> T* { return mem.get() + shift; }
    auto intact() const -> bool
    {
        for (std::size_t i = 0; i < shift; ++i) {
            if (mem[i].value() != guard(i).value()) {
                return false;
            }
        }
        for (std::size_t i = shift + n; i < shift + n + tail; ++i) {
            if (mem[i].value() != guard(i).value()) {
                return false;
            }
        }
        return true;
    }
};

// alias: 0 distinct, 1 out=lhs, 2 out=rhs, 3 lhs=rhs, 4 all equal
template<typename Int, int F>
void one_length(op o, std::size_t n, std::size_t sl, std::size_t sr, std::size_t so, int alias, std::size_t tail)
{
    using T = fx<Int, F>;
    static auto const values = boundary<Int>();
    auto l = arena<T>(n, sl, tail);
    auto r = arena<T>(n, sr, tail);
    auto w = arena<T>(n, so, tail);
    auto lv = std::vector<T>(n);
    auto rv = std::vector<T>(n);
    for (std::size_t i = 0; i < n; ++i) {
        lv[i] = make<Int, F>(values[(i * 37 + 5 * n) % values.size()]);
        rv[i] = make<Int, F>(values[(i * 11 + 3 + 2 * n) % values.size()]);
        if (alias >= 3) {
            rv[i] = lv[i];
        }
        l.data()[i] = lv[i];
        r.data()[i] = rv[i];
    }
    auto* lp = l.data();
    auto* rp = alias >= 3 ? l.data() : r.data();
    auto* op_ = alias == 1 || alias == 4 ? lp : alias == 2 ? rp : w.data();
    call<Int, F>(o, std::span<T const>{lp, n}, std::span<T const>{rp, n}, std::span<T>{op_, n});
    compare<Int, F>(o, lv, rv, op_, "array");
    mc::require(l.intact() && r.intact() && w.intact(), "%s int%zu.%d of %zu elements wrote outside the output", names[o], sizeof(Int) * 8, F, n);
    if (op_ != lp) {
        for (std::size_t i = 0; i < n; ++i) {
            mc::require(lp[i].value() == lv[i].value(), "%s changed its left operand", names[o]);
        }
    }
    if (op_ != rp) {
        for (std::size_t i = 0; i < n; ++i) {
            mc::require(rp[i].value() == rv[i].value(), "%s changed its right operand", names[o]);
        }
    }
    mc::transition();
}

template<typename Int, int F>
void lengths()
{
    auto const limit = std::size_t(mc::thorough() ? 200 : 70);
    for (std::size_t n = 0; n <= limit; ++n) {
        mc::check("lengths", {long(sizeof(Int)), F, long(n)}, [&] {
            for (auto o : {add, sub, mul}) {
                for (int alias = 0; alias < 5; ++alias) {
                    for (std::size_t tail : {0, 40}) {
                        for (std::size_t sl = 0; sl < 4; ++sl) {
                            for (std::size_t sr = 0; sr < 3; ++sr) {
                                one_length<Int, F>(o, n, sl * 3 % 16, sr * 5 % 16, (sl + 2 * sr) % 16, alias, tail);
                                mc::trace();
                            }
                        }
                    }
                }
            }
            mc::states(3 * 5 * 2 * 12);
        });
    }
    for (std::size_t n : {127, 128, 129, 255, 256, 257, 511, 1000, 1024, 4099, 32767, 32768, 32769, 65535, 65536, 65537, 70001}) {
        mc::check("long-arrays", {long(sizeof(Int)), F, long(n)}, [&] {
            for (auto o : {add, sub, mul}) {
                for (int alias = 0; alias < 5; ++alias) {
                    for (std::size_t s : {0, 1, 7}) {
                        one_length<Int, F>(o, n, s, (s * 3) % 16, (s * 5) % 16, alias, 40);
                        mc::trace();
                    }
                }
            }
            mc::states(3 * 5 * 3);
        });
    }
}

template<typename Int, int F, std::size_t E>
void static_extent()
{
    mc::check("static-extent", {long(sizeof(Int)), F, long(E)}, [] {
        using T = fx<Int, F>;
        auto const values = boundary<Int>();
        for (auto o : {add, sub, mul}) {
            for (std::size_t s = 0; s < values.size(); ++s) {
                auto l = std::vector<T>(E), r = std::vector<T>(E);
                auto w = arena<T>(E, 3, 40);
                for (std::size_t i = 0; i < E; ++i) {
                    l[i] = make<Int, F>(values[(i * 5 + s) % values.size()]);
                    r[i] = make<Int, F>(values[(i * 13 + 7 * s) % values.size()]);
                }
                call<Int, F, E>(o, std::span<T const, E>{l.data(), E}, std::span<T const, E>{r.data(), E}, std::span<T, E>{w.data(), E});
                compare<Int, F>(o, l, r, w.data(), "static extent array");
                mc::require(w.intact(), "%s wrote outside the output", names[o]);
                mc::transition();
                mc::trace();
            }
        }
        mc::states(3 * values.size());
    });
}

template<int F>
void pairs8()
{
    for (long shift = 0; shift < 16; ++shift) {
        mc::check("pairs8", {F, shift}, [&] {
            using T      = fx<std::int8_t, F>;
            auto const n = std::size_t(65536);
            auto l = std::vector<T>(n), r = std::vector<T>(n), out = std::vector<T>(n);
            for (std::size_t i = 0; i < n; ++i) {
                auto const k = (i + std::size_t(shift)) % n;
                l[i]         = make<std::int8_t, F>(int(k >> 8) - 128);
                r[i]         = make<std::int8_t, F>(int((k + (k >> 8)) & 255) - 128);
            }
            for (auto o : {add, sub, mul}) {
                call<std::int8_t, F>(o, std::span<T const>{l}, std::span<T const>{r}, std::span<T>{out});
                compare<std::int8_t, F>(o, l, r, out.data(), "array");
            }
            mc::states(3 * n);
            mc::transition(3);
            mc::trace(3);
        });
    }
}

template<int F>
void pairs16(std::vector<int> const& set, long lane, bool swap)
{
    using T      = fx<std::int16_t, F>;
    auto const n = std::size_t(65536);
    auto l = std::vector<T>(n), r = std::vector<T>(n), out = std::vector<T>(n);
    for (std::size_t i = 0; i < n; ++i) {
        l[i] = make<std::int16_t, F>(int((i + std::size_t(lane)) % n) - 32768);
    }
    for (auto b : set) {
        std::fill(r.begin(), r.end(), make<std::int16_t, F>(b));
        auto const& x = swap ? r : l;
        auto const& y = swap ? l : r;
        for (auto o : {add, sub, mul}) {
            call<std::int16_t, F>(o, std::span<T const>{x}, std::span<T const>{y}, std::span<T>{out});
            compare<std::int16_t, F>(o, x, y, out.data(), "array");
        }
    }
    mc::states(3 * n * set.size());
    mc::transition(3 * set.size());
    mc::trace(3 * set.size());
}

template<int F>
void pairs16_boundary()
{
    for (long lane = 0; lane < (mc::thorough() ? 8 : 2); ++lane) {
        for (long swap = 0; swap < 2; ++swap) {
            mc::check("pairs16-boundary", {F, lane, swap}, [&] { pairs16<F>(boundary<std::int16_t>(), lane * 3, swap != 0); });
        }
    }
}

template<int F>
void pairs16_all()
{
    for (long slice = 0; slice < 256; ++slice) {
        mc::check("pairs16", {F, slice}, [&] {
            std::vector<int> set;
            for (int i = 0; i < 256; ++i) {
                set.push_back(int(slice) * 256 + i - 32768);
            }
            pairs16<F>(set, slice % 8, false);
        });
    }
}

// ---------------------------------------------------------------------------------------------------------------
template<typename Batch>
void batch(char const* name, long id)
{
    using T          = typename Batch::value_type;
    using Int        = typename T::storage_type;
    constexpr auto F = int(T::fractional_bits);
    constexpr auto W = Batch::size;
    static_assert(W * sizeof(T) == sizeof(Batch));

    mc::check("batch-lanes", {id}, [&] {
        // every lane distinct, through load, store, copies, broadcast and the register conversion, for every misalignment
        for (std::size_t shift = 0; shift < 2 * W; ++shift) {
            for (int salt = 0; salt < 8; ++salt) {
                auto in = arena<T>(W, shift, 0);
                for (std::size_t i = 0; i < W; ++i) {
                    in.data()[i] = make<Int, F>(clamp<Int>(int((i * 131 + std::size_t(salt) * 977 + 1) % 65536) * (salt % 2 ? -1 : 1) % hi<Int>));
                }
                auto out     = arena<T>(W, (shift * 3) % (2 * W), 64);
                auto const b = Batch::load_unaligned(in.data());
                b.store_unaligned(out.data());
                for (std::size_t i = 0; i < W; ++i) {
                    mc::require(out.data()[i].value() == in.data()[i].value(), "%s lane %zu: stored %d, loaded from %d", name, i, int(out.data()[i].value()), int(in.data()[i].value()));
                }
                mc::require(out.intact(), "%s store wrote outside its lanes", name);
                auto const c = Batch{static_cast<typename Batch::register_type>(b)};
                auto again   = arena<T>(W, 1, 0);
                c.store_unaligned(again.data());
                for (std::size_t i = 0; i < W; ++i) {
                    mc::require(again.data()[i].value() == in.data()[i].value(), "%s lane %zu after register conversion", name, i);
                }
                mc::transition(3);
                mc::trace();
            }
        }
        mc::states(2 * W * 8);
    });
    mc::check("batch-broadcast", {id}, [&] {
        for (auto v = lo<Int>; v <= hi<Int>; ++v) {
            T out[W];
            Batch::broadcast(make<Int, F>(v)).store_unaligned(out);
            for (std::size_t i = 0; i < W; ++i) {
                mc::require(out[i].value() == v, "%s broadcast %d: lane %zu holds %d", name, v, i, int(out[i].value()));
            }
        }
        mc::states(std::uint64_t(hi<Int> - lo<Int> + 1));
        mc::transition(std::uint64_t(hi<Int> - lo<Int> + 1));
        mc::trace(std::uint64_t(hi<Int> - lo<Int> + 1));
    });
    auto sweep = [&](std::vector<int> const& set, std::size_t rot) {
        // lane i of a batch holds a different left operand; all values pass through all lanes over the rotations
        T l[W], r[W], out[W];
        for (auto b : set) {
            for (int base = lo<Int>; base <= hi<Int>; base += int(W)) {
                for (std::size_t i = 0; i < W; ++i) {
                    l[i] = make<Int, F>(base + int((i + rot) % W));
                    r[i] = make<Int, F>(i % 3 == 2 ? clamp<Int>(-b) : b);
                }
                for (int swap = 0; swap < 2; ++swap) {
                    auto const x = Batch::load_unaligned(swap ? r : l);
                    auto const y = Batch::load_unaligned(swap ? l : r);
                    auto verify  = [&](op o, Batch z) {
                        z.store_unaligned(out);
                        auto const raw = [](auto const* p) { return reinterpret_cast<Int const*>(p); };
                        if (all_allowed<Int, F>(o, raw(swap ? r : l), raw(swap ? l : r), raw(out), W)) {
                            return;
                        }
                        for (std::size_t i = 0; i < W; ++i) {
                            auto const p = int((swap ? r : l)[i].value());
                            auto const q = int((swap ? l : r)[i].value());
                            mc::require(allowed<Int, F>(o, p, q, out[i].value()), "%s %s lane %zu: %d and %d give %d", name, names[o], i, p, q, int(out[i].value()));
                        }
                    };
                    verify(add, x + y);
                    verify(sub, x - y);
                    if constexpr (requires { x * y; }) {
                        verify(mul, x * y);
                    }
                }
            }
        }
        auto const n = set.size() * std::size_t(hi<Int> - lo<Int> + 1) / W;
        mc::states(n);
        mc::transition(6 * n);
        mc::trace(6 * n);
    };
    if constexpr (sizeof(Int) == 1) {
        for (std::size_t rot = 0; rot < W; ++rot) {
            mc::check("batch-pairs", {id, long(rot)}, [&] {
                std::vector<int> all;
                for (auto v = lo<Int>; v <= hi<Int>; ++v) {
                    all.push_back(v);
                }
                sweep(all, rot);
            });
        }
    } else {
        auto const set = boundary<Int>();
        for (std::size_t k = 0; k < set.size(); ++k) {
            mc::check("batch-pairs", {id, long(k)}, [&] { sweep({set[k]}, k % W); });
        }
    }
}

template<typename Int, int... F>
void all_lengths(std::integer_sequence<int, F...>)
{
    (lengths<Int, F>(), ...);
}

template<int... F>
void p8(std::integer_sequence<int, F...>)
{
    (pairs8<F>(), ...);
}

template<int... F>
void p16(std::integer_sequence<int, F...>)
{
    (pairs16_boundary<F>(), ...);
    if (release() && mc::thorough()) {
        (pairs16_all<F>(), ...);
    }
}

template<typename Int, int F>
void statics()
{
    static_extent<Int, F, 1>();
    static_extent<Int, F, 7>();
    static_extent<Int, F, 8>();
    static_extent<Int, F, 16>();
    static_extent<Int, F, 17>();
    static_extent<Int, F, 37>();
}

void run()
{
    if (MC_PART == 0) {
        p8(std::make_integer_sequence<int, 8>{});
        all_lengths<std::int8_t>(std::make_integer_sequence<int, 8>{});
        statics<std::int8_t, 7>();
        statics<std::int8_t, 6>();
        statics<std::int16_t, 15>();
        statics<std::int16_t, 14>();
    }
    if (MC_PART == 1) {
        p16(std::make_integer_sequence<int, 16>{});
        if (release() && !mc::thorough()) {
            pairs16_all<15>();
        }
    }
    if (MC_PART == 2) {
        all_lengths<std::int16_t>(std::make_integer_sequence<int, 16>{});
#if defined(NEO_HAS_ISA_SSE2) or defined(NEO_HAS_ISA_NEON)
        batch<neo::q7x16>("q7x16", 0);
        batch<neo::q15x8>("q15x8", 1);
#endif
#if defined(NEO_HAS_ISA_AVX2)
        batch<neo::q7x32>("q7x32", 2);
        batch<neo::q15x16>("q15x16", 3);
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
        batch<neo::q7x64>("q7x64", 4);
        batch<neo::q15x32>("q15x32", 5);
#endif
    }
    mc::sample("add/subtract/multiply over arrays and batches, all pairs, all lanes");
}

}  // namespace

MC_MAIN(run)
