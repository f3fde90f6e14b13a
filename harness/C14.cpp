// MC-TITLE: Sparse matrix behaves like a dense matrix
// MC-TECH: explicit-state exploration of all insertion words up to a depth and all construction masks; every reached matrix is compared with a dense model (reads, container invariants, sparse multiply-add of every row in every aliasing)
// MC-QUICK: v3 gcc
// MC-THOROUGH: sse2 v3rel
// MC-BOUNDS: Structured masks and insertion orders on shapes up to 2x70000, 2000x2, 257x5, 20x20; Insertion words over (position x {fresh value, zero}): 2x2 depth 5 (8^5), 1x3, 3x1 depth 5 (6^5), 2x3, 3x2 depth 4, 3x3 depth 4 with fresh values (9^4; thorough 9^5), 1x1 depth 6; construction masks: every mask of every shape with up to 9 elements and 3x4 (thorough 4x4), in four layouts, by position and by value, followed by every single insertion (shapes up to 6 elements: every pair); shapes with no rows or columns; element types float, double, std::complex; index types size_t, uint32, int, and 8- and 16-bit ones up to the last element they can count; multiply-add out of place, in place on the addend, in place on the factor, on strided vectors. All 2x2 matrices over 7 extreme magnitudes (subnormal, smallest normal, 2^-100, 2^-40, -0, 2^40, -2^100).
#include "model.hpp"

#include <neo/algorithm/multiply_add.hpp>
#include <neo/container/csr_matrix.hpp>

using namespace model;

namespace {

template<typename T>
auto value(long k) -> T
{
    if constexpr (std::is_floating_point_v<T>) {
        return T(k);
    } else {
        using F = typename T::value_type;
        return T{F(k), F(k % 3 - 1)};
    }
}

template<typename T, typename I>
struct explorer
{
    using csr = neo::csr_matrix<T, I>;
    long id;

    struct dense
    {
        std::size_t r, c;
        std::vector<T> v;
        dense(std::size_t r_, std::size_t c_) : r{r_}, c{c_}, v(r_ * c_, T{}) {}
    };

    void verify(csr const& m, dense const& d)
    {
        mc::require(m.rows() == d.r && m.columns() == d.c && m.extent(0) == d.r && m.extent(1) == d.c && m.size() == d.r * d.c, "matrix reports %zux%zu for %zux%zu", std::size_t(m.rows()), std::size_t(m.columns()), d.r, d.c);
        mc::require(std::size_t(m.extents().extent(0)) == d.r && std::size_t(m.extents().extent(1)) == d.c, "extents() differ");
        for (std::size_t i = 0; i < d.r; ++i) {
            for (std::size_t j = 0; j < d.c; ++j) {
                mc::require(m(I(i), I(j)) == d.v[i * d.c + j], "%zux%zu: element (%zu,%zu) differs from the dense matrix", d.r, d.c, i, j);
            }
        }
        auto const& val = m.value_container();
        auto const& col = m.column_container();
        auto const& row = m.row_container();
        mc::require(val.size() == col.size(), "%zu values but %zu column indices", val.size(), col.size());
        mc::require(row.size() == d.r + 1, "%zu row offsets for %zu rows", row.size(), d.r);
        mc::require(row[0] == I(0) && std::size_t(row[d.r]) == val.size(), "row offsets do not span the values");
        for (std::size_t i = 0; i < d.r; ++i) {
            mc::require(row[i] <= row[i + 1], "row offsets decrease at %zu", i);
            for (auto k = std::size_t(row[i]); k < std::size_t(row[i + 1]); ++k) {
                mc::require(std::size_t(col[k]) < d.c, "column index out of range");
                mc::require(k == std::size_t(row[i]) || col[k - 1] < col[k], "columns of row %zu not strictly increasing", i);
            }
        }
        for (std::size_t i = 0; i < d.r; ++i) {
            for (int alias = 0; alias < 4; ++alias) {
                auto const stride = std::size_t(alias == 3 ? 2 : 1);
                buffer<T> x{d.c, stride}, z{d.c, stride}, out{d.c, stride};
                std::vector<T> ref(d.c);
                for (std::size_t j = 0; j < d.c; ++j) {
                    x.at(j)   = value<T>(long(j) + 2);
                    z.at(j)   = value<T>(long(j) * 3 - 4);
                    out.at(j) = value<T>(99);
                    ref[j]    = x.at(j) * d.v[i * d.c + j] + z.at(j);
                }
                auto& o = alias == 1 ? z : (alias == 2 ? x : out);
                auto const x0 = x.mem, z0 = z.mem;
                if (alias == 3) {
                    neo::multiply_add(x.cstrided(), m, I(i), z.cstrided(), o.strided());
                } else if (alias == 1) {
                    neo::multiply_add(x.cflat(), m, I(i), o.flat(), o.flat());
                } else {
                    neo::multiply_add(x.cflat(), m, I(i), z.cflat(), o.flat());
                }
                mc::transition();
                o.check_guards("multiply_add");
                for (std::size_t j = 0; j < d.c; ++j) {
                    mc::require(o.at(j) == ref[j], "%zux%zu row %zu: multiply_add (aliasing %d) column %zu differs from the dense row", d.r, d.c, i, alias, j);
                }
                if (alias != 2) {
                    mc::require(x.mem == x0, "multiply_add changed its factor");
                }
                if (alias != 1) {
                    mc::require(z.mem == z0, "multiply_add changed its addend");
                }
            }
        }
        mc::hasher h;
        h.add(id).add(d.r).add(d.c).add(d.v).add(val.size());
        for (auto c : col) {
            h.add(c);
        }
        mc::state(h.h);
        mc::outcome(h.h);
        mc::trace();
    }

    void insert(csr& m, dense& d, std::size_t pos, T v)
    {
        m.insert(I(pos / d.c), I(pos % d.c), v);
        mc::transition();
        d.v[pos] = v;
    }

    void words(csr const& m, dense const& d, std::size_t depth, bool zeros, long step)
    {
        verify(m, d);
        if (depth == 0) {
            return;
        }
        for (std::size_t p = 0; p < d.v.size(); ++p) {
            for (int z = 0; z < (zeros ? 2 : 1); ++z) {
                auto m2 = m;
                auto d2 = d;
                insert(m2, d2, p, z == 1 ? T{} : value<T>(step));
                words(m2, d2, depth - 1, zeros, step + 1);
            }
        }
    }

    void insertions(std::size_t r, std::size_t c, std::size_t depth, bool zeros)
    {
        for (std::size_t p = 0; p < r * c; ++p) {
            mc::check("insert", {id, long(r), long(c), long(depth), long(p)}, [&] {
                csr m{r, c};
                dense d{r, c};
                verify(m, d);
                insert(m, d, p, value<T>(5));
                words(m, d, depth - 1, zeros, 6);
                mc::sample("%zux%zu: all insertion words of length %zu starting at position %zu", r, c, depth, p);
            });
        }
    }

    void masks(std::size_t r, std::size_t c)
    {
        auto const n     = r * c;
        auto const total = std::uint64_t(1) << n;
        for (std::uint64_t base = 0; base < total; base += 128) {
            mc::check("mask", {id, long(r), long(c), long(base)}, [&] {
                for (auto w = base; w < std::min(total, base + 128); ++w) {
                    auto const layout = int(w % 4);
                    auto b            = make2<T>(layout, r, c);
                    dense byPos{r, c}, byVal{r, c};
                    for (std::size_t i = 0; i < r; ++i) {
                        for (std::size_t j = 0; j < c; ++j) {
                            auto const keep = ((w >> (i * c + j)) & 1) != 0;
                            b.at(i, j)      = value<T>(keep ? long(i * c + j) + 1 : -long(i * c + j) - 1);
                            if (keep) {
                                byPos.v[i * c + j] = b.at(i, j);
                                byVal.v[i * c + j] = b.at(i, j);
                            }
                        }
                    }
                    auto const before = b.mem;
                    with_view2(layout, b, [&](auto v) {
                        auto m = csr{v, [&](I i, I j, T) { return ((w >> (std::size_t(i) * c + std::size_t(j))) & 1) != 0; }};
                        mc::transition();
                        verify(m, byPos);
                        auto m2 = csr{v, [&](I, I, T x) { return std::real(x) > 0; }};
                        mc::transition();
                        verify(m2, byVal);
                        mc::require(m2.value_container().size() == std::size_t(__builtin_popcountl(w)), "%zu elements stored, %d selected", m2.value_container().size(), __builtin_popcountl(w));
                        if (n <= 9) {
                            words(m, byPos, n <= 6 ? 2 : 1, false, 20);
                        }
                    });
                    mc::require(b.mem == before, "construction changed the dense matrix");
                }
            });
        }
    }

    // matrices far beyond the enumerated shapes: structured masks, structured insertion orders
    void large(std::size_t r, std::size_t c, std::size_t modulus)
    {
        mc::check("large", {id, long(r), long(c), long(modulus)}, [&] {
            for (int layout = 0; layout < 2; ++layout) {
                auto b = make2<T>(layout, r, c);
                dense d{r, c};
                auto keep = [&](std::size_t i, std::size_t j) { return (i * 7 + j * 3 + 1) % modulus == 0 || (i + 1 == r && j + 1 == c); };
                std::size_t count = 0;
                for (std::size_t i = 0; i < r; ++i) {
                    for (std::size_t j = 0; j < c; ++j) {
                        b.at(i, j) = value<T>(long((i * 31 + j * 17) % 1021) + 1);
                        if (keep(i, j)) {
                            d.v[i * c + j] = b.at(i, j);
                            ++count;
                        }
                    }
                }
                with_view2(layout, b, [&](auto v) {
                    auto m = csr{v, [&](I i, I j, T) { return keep(std::size_t(i), std::size_t(j)); }};
                    mc::transition();
                    verify(m, d);
                    mc::require(m.value_container().size() == count, "%zux%zu: %zu elements stored, %zu selected", r, c, m.value_container().size(), count);
                    // overwrite and add, in the middle and at both ends
                    for (std::size_t p : {std::size_t(0), r * c - 1, r * c / 2, (r - 1) * c, c - 1, std::size_t(0), r * c / 2}) {
                        insert(m, d, p, value<T>(long(p % 500) + 7));
                    }
                    verify(m, d);
                });
            }
        });
    }
    void orders(std::size_t r, std::size_t c)
    {
        for (int order = 0; order < 4; ++order) {
            mc::check("order", {id, long(r), long(c), order}, [&] {
                csr m{r, c};
                dense d{r, c};
                auto const n = r * c;
                for (std::size_t k = 0; k < n; ++k) {
                    auto const p = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 7 + 3) % n : (k % r) * c + k / r;
                    insert(m, d, p, value<T>(long(k % 700) + 1));
                    if (k % (n / 3 + 1) == 0) {
                        verify(m, d);
                    }
                }
                verify(m, d);
            });
        }
    }

    // shapes and numbers of elements up to what the index type can count, one past the end included
    void limits(std::size_t most, std::size_t a, std::size_t b)
    {
        for (auto [r, c] : {std::pair{most, std::size_t(1)}, {std::size_t(1), most}, {a, b}, {b, a}, {most, most}}) {
            if (r * c <= most) {
                large(r, c, 1);
                if (most < 1000) {
                    orders(r, c);
                }
            } else if (most < 1000) {
                // few elements in a large matrix
                mc::check("corners", {id, long(r), long(c)}, [&, r = r, c = c] {
                    csr m{r, c};
                    dense d{r, c};
                    for (std::size_t p : {r * c - 1, std::size_t(0), c - 1, (r - 1) * c, r * c / 2, r * c - 2, std::size_t(1), r * c - 1}) {
                        insert(m, d, p, value<T>(long(p % 500) + 7));
                        verify(m, d);
                    }
                });
            }
        }
        insertions(2, 3, 3, true);
    }

    void run()
    {
        large(20, 20, 5);
        large(3, 300, 2);
        large(300, 3, 2);
        large(257, 5, 1);
        large(5, 257, 1);
        large(2, 70000, 499);
        large(2000, 2, 1);
        orders(12, 12);
        orders(3, 130);
        orders(300, 2);
        insertions(1, 1, 6, true);
        insertions(2, 2, 5, true);
        insertions(1, 3, 5, true);
        insertions(3, 1, 5, true);
        insertions(2, 3, 4, true);
        insertions(3, 2, 4, true);
        insertions(3, 3, mc::thorough() ? 5 : 4, false);
        for (std::size_t r = 1; r <= 9; ++r) {
            for (std::size_t c = 1; r * c <= 9; ++c) {
                masks(r, c);
            }
        }
        masks(3, 4);
        if (mc::thorough()) {
            masks(4, 4);
        }
        // values of every magnitude (powers of two: all arithmetic stays exact), inserted and selected
        for (std::size_t first = 0; first < 7; ++first) {
            mc::check("magnitude", {id, long(first)}, [&] {
                using F            = decltype(std::real(T{}));
                F const special[7] = {std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::min(), std::ldexp(F(1), -100), std::ldexp(F(1), -40), F(-0.0), std::ldexp(F(1), 40), -std::ldexp(F(1), 100)};
                for (std::size_t w = 0; w < 7 * 7 * 7; ++w) {
                    std::size_t const idx[4] = {first, w % 7, w / 7 % 7, w / 49};
                    csr m{2, 2};
                    dense d{2, 2};
                    auto b = make2<T>(int(w % 4), 2, 2);
                    for (std::size_t k = 0; k < 4; ++k) {
                        auto const p = (k + w) % 4;
                        auto const v = [&] {
                            if constexpr (std::is_floating_point_v<T>) {
                                return T(special[idx[k]]);
                            } else {
                                return k % 2 == 0 ? T{special[idx[k]], F(0)} : T{F(0), special[idx[k]]};
                            }
                        }();
                        insert(m, d, p, v);
                        b.at(p / 2, p % 2) = v;
                    }
                    verify(m, d);
                    with_view2(int(w % 4), b, [&](auto v) { verify(csr{v, [](I, I, T) { return true; }}, d); });
                    mc::transition();
                }
            });
        }
        mc::check("degenerate", {id}, [&] {
            for (std::size_t n = 0; n <= 3; ++n) {
                verify(csr{0, n}, dense{0, n});
                verify(csr{n, 0}, dense{n, 0});
                auto b = make2<T>(0, n, 0);
                verify(csr{b.right(), [](I, I, T) { return true; }}, dense{n, 0});
                auto b2 = make2<T>(0, 0, n);
                verify(csr{b2.right(), [](I, I, T) { return true; }}, dense{0, n});
            }
        });
    }
};

void run()
{
    explorer<float, std::size_t>{0}.run();
    explorer<std::complex<double>, std::size_t>{1}.run();
    explorer<double, std::uint32_t>{2}.run();
    explorer<std::complex<float>, int>{3}.run();
    explorer<float, std::uint8_t>{4}.limits(254, 14, 18);
    explorer<double, std::int8_t>{5}.limits(126, 7, 18);
    explorer<float, std::int16_t>{6}.limits(32766, 6, 5461);
    explorer<float, std::uint16_t>{7}.limits(65534, 255, 256);
}

}  // namespace

MC_MAIN(run)
