// MC-TITLE: SIMD batch types behave lane by lane like scalars
// MC-TECH: exhaustive enumeration of operand pairs from a boundary alphabet (all half-precision values) in every lane, of every misalignment, for every batch type and instruction set, compared bit for bit with the scalar operation
// MC-QUICK: v3 sse2 sse41 avx512 v3rel
// MC-THOROUGH: avx512rel sse41rel sse2rel gcc gccrel
// MC-PARTS: 2
// MC-BOUNDS: single/double: all pairs from a 60-value alphabet (signed zeros, subnormals, limits, infinities, NaN, neighbours of powers of two) in every lane with every other lane holding different operands. Half: every one of the 65536 values x 96 boundary values in both orders (thorough in release: all 2^32 pairs). Every element misalignment from 0 to twice the width for loads and stores, exact-size heap arrays under the address sanitizer and guard elements.
// MC-ASSUME: default rounding mode; a NaN result is any NaN; ARM NEON batches cannot be compiled on this machine
#include "model.hpp"

#include <neo/simd.hpp>

#include <cfloat>
#include <cstring>
#include <limits>
#include <memory>
#include <set>
#include <string_view>

namespace {

bool release() { return std::string_view{MC_CONFIG}.find("rel") != std::string_view::npos; }

template<std::size_t N>
using bits_t = std::conditional_t<N == 2, std::uint16_t, std::conditional_t<N == 4, std::uint32_t, std::uint64_t>>;

template<typename T>
auto bits(T v) -> bits_t<sizeof(T)>
{
    bits_t<sizeof(T)> b;
    std::memcpy(&b, &v, sizeof(T));
    return b;
}

template<typename T>
auto from_bits(bits_t<sizeof(T)> b) -> T
{
    T v;
    std::memcpy(&v, &b, sizeof(T));
    return v;
}

template<typename T>
auto same(T a, T b) -> bool
{
    return (a != a && b != b) || bits(a) == bits(b);
}

template<typename T>
auto scalar(int op, T a, T b) -> T
{
    if constexpr (sizeof(T) == 2) {
        // sums, differences and products of halves are exact in double: one rounding
        auto const x = double(a), y = double(b);
        return static_cast<T>(op == 0 ? x + y : op == 1 ? x - y : x * y);
    } else {
        volatile T x = a, y = b;
        volatile T r = op == 0 ? x + y : op == 1 ? x - y : x * y;
        return r;
    }
}

constexpr char const* names[] = {"+", "-", "*"};

template<typename T>
auto alphabet() -> std::vector<T>
{
    std::vector<T> v;
    if constexpr (sizeof(T) == 2) {
        std::set<std::uint16_t> s;
        for (unsigned e = 0; e < 32; e += 1) {
            for (unsigned m : {0U, 1U, 0x3ffU}) {
                s.insert(std::uint16_t((e << 10) | m));
            }
        }
        for (auto b : s) {
            v.push_back(from_bits<T>(b));
        }
        for (unsigned m : {0x8000U, 0x8001U, 0xbc00U, 0xfbffU, 0xfc00U}) {
            v.push_back(from_bits<T>(std::uint16_t(m)));
        }
    } else {
        using L = std::numeric_limits<T>;
        for (auto x : {T(0), L::denorm_min(), L::min(), std::nextafter(L::min(), T(0)), L::epsilon(), T(1), T(1) + L::epsilon(), T(1) - L::epsilon() / 2,
                       T(0.5), T(1.5), T(2), T(3), T(10), T(0.1L), T(1) / T(3), T(3.14159265358979323846L), T(1e-5L), T(12345.678L), T(16777217), T(65504),
                       std::sqrt(L::max()), std::sqrt(L::min()), L::max() / 2, L::max(), std::nextafter(L::max(), T(0)), L::infinity(), std::ldexp(T(1), L::digits), std::ldexp(T(1), L::digits) + T(2),
                       T(1e10L), T(7)}) {
            v.push_back(x);
            v.push_back(-x);
        }
        v.push_back(L::quiet_NaN());
    }
    return v;
}

template<typename T>
struct arena
{
    std::unique_ptr<T[]> mem;
    std::size_t n, shift, tail;
    static auto guard(std::size_t i) -> T { return static_cast<T>(-77.0 - double(i % 5)); }
    arena(std::size_t size, std::size_t sh, std::size_t t) : mem{new T[sh + size + t]}, n{size}, shift{sh}, tail{t}
    {
        for (std::size_t i = 0; i < sh + size + t; ++i) {
            mem[i] = guard(i);
        }
    }
    auto data() -> T* { return mem.get() + shift; }
    auto intact() const -> bool
    {
        for (std::size_t i = 0; i < shift + n + tail; ++i) {
            if ((i < shift || i >= shift + n) && bits(mem[i]) != bits(guard(i))) {
                return false;
            }
        }
        return true;
    }
};

template<typename Batch>
auto apply(int op, Batch a, Batch b) -> Batch
{
    return op == 0 ? a + b : op == 1 ? a - b : a * b;
}

template<typename Batch>
void batch(char const* name, long id)
{
    using T          = typename Batch::value_type;
    constexpr auto W = std::size_t(Batch::size);
    static_assert(W * sizeof(T) == sizeof(Batch));
    static_assert(alignof(Batch) == sizeof(Batch));
    static_assert(Batch::alignment == alignof(typename Batch::register_type));
    auto const values = alphabet<T>();

    mc::check("memory", {id}, [&] {
        for (std::size_t sl = 0; sl < 2 * W; ++sl) {
            for (std::size_t ss = 0; ss < 2 * W; ++ss) {
                for (int salt = 0; salt < 4; ++salt) {
                    auto in = arena<T>(W, sl, 0);
                    for (std::size_t i = 0; i < W; ++i) {
                        in.data()[i] = values[(i * 7 + std::size_t(salt) * 13) % values.size()];
                    }
                    auto out = arena<T>(W, ss, salt % 2 ? 2 * W : 0);
                    auto const b = Batch::load_unaligned(in.data());
                    auto const c = Batch{static_cast<typename Batch::register_type>(b)};
                    auto d = Batch{};
                    d = c;
                    d.store_unaligned(out.data());
                    for (std::size_t i = 0; i < W; ++i) {
                        mc::require(bits(out.data()[i]) == bits(in.data()[i]), "%s lane %zu: stored %g, loaded from %g", name, i, double(out.data()[i]), double(in.data()[i]));
                    }
                    mc::require(out.intact(), "%s: store wrote outside its lanes", name);
                    mc::transition(3);
                    mc::trace();
                }
            }
        }
        mc::states(4 * 4 * W * W);
    });
    mc::check("broadcast", {id}, [&] {
        auto one = [&](T v) {
            auto out = arena<T>(W, 1, W);
            Batch::broadcast(v).store_unaligned(out.data());
            for (std::size_t i = 0; i < W; ++i) {
                mc::require(bits(out.data()[i]) == bits(v), "%s broadcast %g: lane %zu holds %g", name, double(v), i, double(out.data()[i]));
            }
            mc::require(out.intact(), "%s: store wrote outside its lanes", name);
            mc::states(1);
            mc::transition(2);
            mc::trace();
        };
        for (auto v : values) {
            one(v);
        }
        if constexpr (sizeof(T) == 2) {
            for (unsigned b = 0; b < 65536; ++b) {
                one(from_bits<T>(std::uint16_t(b)));
            }
        }
    });
    for (std::size_t p = 0; p < values.size(); ++p) {
        mc::check("pairs", {id, long(p)}, [&] {
            T l[W], r[W], out[W];
            for (std::size_t q = 0; q < values.size(); ++q) {
                for (std::size_t lane = 0; lane < W; ++lane) {
                    for (std::size_t i = 0; i < W; ++i) {
                        l[i] = values[(p + 3 * i + 1) % values.size()];
                        r[i] = values[(q + 5 * i + 2) % values.size()];
                    }
                    l[lane] = values[p];
                    r[lane] = values[q];
                    for (int op = 0; op < 3; ++op) {
                        apply(op, Batch::load_unaligned(l), Batch::load_unaligned(r)).store_unaligned(out);
                        for (std::size_t i = 0; i < W; ++i) {
                            auto const want = scalar<T>(op, l[i], r[i]);
                            mc::require(same(out[i], want), "%s lane %zu: %.17g %s %.17g is %.17g, expected %.17g", name, i, double(l[i]), names[op], double(r[i]), double(out[i]), double(want));
                        }
                    }
                }
            }
            mc::states(values.size() * W);
            mc::transition(values.size() * W * 3);
            mc::trace(values.size() * W * 3);
        });
    }
}

#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
template<typename Batch>
void half_all(char const* name, long id)
{
    using T          = _Float16;
    constexpr auto W = std::size_t(Batch::size);
    auto sweep = [&](std::uint16_t b, unsigned rot) {
        alignas(64) T l[W], r[W], out[W];
        auto const y = from_bits<T>(b);
        for (std::size_t i = 0; i < W; ++i) {
            r[i] = i % 4 == 3 ? -y : y;
        }
        for (unsigned base = 0; base < 65536; base += unsigned(W)) {
            for (std::size_t i = 0; i < W; ++i) {
                l[i] = from_bits<T>(std::uint16_t(base + (i + rot) % W));
            }
            for (int op = 0; op < 3; ++op) {
                for (int swap = 0; swap < 2; ++swap) {
                    auto const* a = swap ? r : l;
                    auto const* c = swap ? l : r;
                    apply(op, Batch::load_unaligned(a), Batch::load_unaligned(c)).store_unaligned(out);
                    for (std::size_t i = 0; i < W; ++i) {
                        auto const x = float(a[i]), z = float(c[i]);  // exact or innocuously double rounded
                        auto const want = static_cast<T>(op == 0 ? x + z : op == 1 ? x - z : x * z);
                        if (!same(out[i], want)) {
                            mc::fail("%s lane %zu: %.9g %s %.9g is %.9g, expected %.9g", name, i, double(a[i]), names[op], double(c[i]), double(out[i]), double(want));
                        }
                    }
                }
            }
        }
        mc::states(65536);
        mc::transition(6 * 65536 / W);
        mc::trace(6 * 65536 / W);
    };
    auto const values = alphabet<T>();
    for (std::size_t k = 0; k < values.size(); ++k) {
        mc::check("half-line", {id, long(k)}, [&] { sweep(bits(values[k]), unsigned(k % W)); });
    }
    if (mc::thorough() && release()) {
        for (long slice = 0; slice < 256; ++slice) {
            mc::check("half-pairs", {id, slice}, [&] {
                for (unsigned i = 0; i < 256; ++i) {
                    sweep(std::uint16_t(slice * 256 + i), i % W);
                }
            });
        }
    }
}
#endif

void run()
{
    if (MC_PART == 0) {
#if defined(NEO_HAS_ISA_SSE2)
        batch<neo::float32x4>("float32x4", 0);
        batch<neo::float64x2>("float64x2", 1);
        batch<neo::float32x>("float32x", 8);
        batch<neo::float64x>("float64x", 9);
#endif
#if defined(NEO_HAS_ISA_AVX)
        batch<neo::float32x8>("float32x8", 2);
        batch<neo::float64x4>("float64x4", 3);
#endif
#if defined(NEO_HAS_ISA_AVX512F)
        batch<neo::float32x16>("float32x16", 4);
        batch<neo::float64x8>("float64x8", 5);
#endif
    }
    if (MC_PART == 1) {
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
        batch<neo::float16x8>("float16x8", 6);
        batch<neo::float16x16>("float16x16", 7);
        half_all<neo::float16x8>("float16x8", 6);
        half_all<neo::float16x16>("float16x16", 7);
#endif
    }
    mc::sample("lane by lane comparison of every batch type");
}

}  // namespace

MC_MAIN(run)
