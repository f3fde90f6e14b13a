#pragma once
// Stand-in for the NEON intrinsics neo uses, lane by lane after the Arm reference.
#include <cstdint>

typedef std::int8_t int8x16_t __attribute__((vector_size(16)));
typedef std::int16_t int16x8_t __attribute__((vector_size(16)));

namespace neon_standin {
template<typename V, typename T>
inline auto load(T const* p) -> V
{
    V v;
    __builtin_memcpy(&v, p, sizeof v);
    return v;
}
template<typename V, typename T>
inline auto dup(T const* p) -> V
{
    V v;
    for (unsigned i = 0; i < sizeof(V) / sizeof(T); ++i) {
        v[i] = *p;
    }
    return v;
}
template<typename T>
inline auto sat(std::int64_t x) -> T
{
    constexpr std::int64_t hi = (std::int64_t(1) << (8 * sizeof(T) - 1)) - 1;
    return static_cast<T>(x > hi ? hi : x < -hi - 1 ? -hi - 1 : x);
}
template<typename T, typename V, typename F>
inline auto map(V a, V b, F f) -> V
{
    V v;
    for (unsigned i = 0; i < sizeof(V) / sizeof(T); ++i) {
        v[i] = sat<T>(f(std::int64_t(a[i]), std::int64_t(b[i])));
    }
    return v;
}
}  // namespace neon_standin

#define NEO_STUB_NEON(SFX, T, V)                                                                                                  \
    inline auto vld1q_##SFX(T const* p) -> V { return neon_standin::load<V>(p); }                                                 \
    inline auto vld1q_dup_##SFX(T const* p) -> V { return neon_standin::dup<V>(p); }                                              \
    inline void vst1q_##SFX(T* p, V v) { __builtin_memcpy(p, &v, sizeof v); }                                                     \
    inline auto vqaddq_##SFX(V a, V b) -> V { return neon_standin::map<T>(a, b, [](auto x, auto y) { return x + y; }); }          \
    inline auto vqsubq_##SFX(V a, V b) -> V { return neon_standin::map<T>(a, b, [](auto x, auto y) { return x - y; }); }          \
    inline auto vaddq_##SFX(V a, V b) -> V { return a + b; }                                                                      \
    inline auto vsubq_##SFX(V a, V b) -> V { return a - b; }

NEO_STUB_NEON(s8, std::int8_t, int8x16_t)
NEO_STUB_NEON(s16, std::int16_t, int16x8_t)
inline auto vqdmulhq_s16(int16x8_t a, int16x8_t b) -> int16x8_t
{
    return neon_standin::map<std::int16_t>(a, b, [](auto x, auto y) { return (2 * x * y) >> 16; });
}
inline auto vqrdmulhq_s16(int16x8_t a, int16x8_t b) -> int16x8_t
{
    return neon_standin::map<std::int16_t>(a, b, [](auto x, auto y) { return (2 * x * y + (1 << 15)) >> 16; });
}
