#pragma once
// Views whose extents are counted in another type than std::size_t: every operation has to work up to the largest
// extent that type can count.
#include "model.hpp"

#include <neo/container/mdspan.hpp>

#include <cstdint>
#include <limits>

namespace indexed {



template<typename T, typename I>
using vec1 = stdex::mdspan<T, stdex::dextents<I, 1>>;
template<typename T, typename I>
using svec1 = stdex::mdspan<T, stdex::dextents<I, 1>, stdex::layout_stride>;
template<typename T, typename I, typename L = stdex::layout_right>
using mat2 = stdex::mdspan<T, stdex::dextents<I, 2>, L>;

template<typename I, typename T>
auto flat(T* p, std::size_t n) -> vec1<T, I>
{
    return vec1<T, I>{p, stdex::dextents<I, 1>{static_cast<I>(n)}};
}
template<typename I, typename T>
auto strided(T* p, std::size_t n, std::size_t st) -> svec1<T, I>
{
    return svec1<T, I>{p, typename stdex::layout_stride::template mapping<stdex::dextents<I, 1>>{stdex::dextents<I, 1>{static_cast<I>(n)}, std::array<I, 1>{static_cast<I>(st)}}};
}
template<typename I, typename L = stdex::layout_right, typename T>
auto matrix(T* p, std::size_t r, std::size_t c) -> mat2<T, I, L>
{
    return mat2<T, I, L>{p, stdex::dextents<I, 2>{static_cast<I>(r), static_cast<I>(c)}};
}

/// f.template operator()<Index>(number of the type, largest number of elements to try)
template<typename Fn>
void for_types(Fn f)
{
#ifdef MC_MINIMAL  // a tree in which such views do not compile: no behaviour to judge
    (void)f;
#else
    f.template operator()<std::int8_t>(0L, std::size_t(127));
    f.template operator()<std::uint8_t>(1L, std::size_t(255));
    f.template operator()<std::int16_t>(2L, std::size_t(32767));
    f.template operator()<std::uint16_t>(3L, std::size_t(65535));
    f.template operator()<std::int32_t>(4L, std::size_t(70001));
    f.template operator()<std::uint32_t>(5L, std::size_t(70001));
    f.template operator()<std::ptrdiff_t>(6L, std::size_t(70001));
#endif
}

inline auto sizes(std::size_t most) -> std::vector<std::size_t>
{
    std::vector<std::size_t> v;
    for (std::size_t n : {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32766, 32767, 32769, 65535, 70001}) {
        if (n <= most) {
            v.push_back(n);
        }
    }
    return v;
}

inline auto shapes(std::size_t most) -> std::vector<std::pair<std::size_t, std::size_t>>
{
    std::vector<std::pair<std::size_t, std::size_t>> v;
    for (auto [r, c] : {std::pair<std::size_t, std::size_t>{0, 3}, {3, 0}, {1, 1}, {2, 3}, {1, 127}, {127, 1}, {9, 14}, {1, 255}, {255, 1}, {15, 17}, {3, 85}, {16, 16}, {257, 2}, {2, 257}, {100, 300}, {255, 257}}) {
        if (r * c <= most) {
            v.emplace_back(r, c);
        }
    }
    return v;
}

}  // namespace indexed
