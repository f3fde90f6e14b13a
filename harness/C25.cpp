// MC-TITLE: Comparison predicates accept exactly the objects that match
// MC-TECH: all shapes x layouts x positions of a single differing element x differences just inside, on and just outside the tolerance; all match/mismatch masks of small shapes
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc v3rel avx512
// MC-PARTS: 2
// MC-BOUNDS: Vectors of 0..40 elements (contiguous/strided on either side), matrices 0..5 x 0..5 in all 16 layout pairs; a deviation at every single position with either sign, on either side, in the real or imaginary component, of exactly the tolerance, one ulp less and one ulp more, and NaN; deviations of large elements; 3-4-5 complex differences; first, last, middle and 255..257, 65535..65536th element of vectors to 66000 and matrices to 300x3; all match masks of up to 10 elements; extents counted in seven integer types up to the largest they can count; default and explicit tolerances (also zero); float, double, complex and float/double mixed; exact equality for all pairs of 12 special values.
#include "indexed.hpp"
#include "model.hpp"

#include <neo/algorithm/allclose.hpp>
#include <neo/algorithm/allmatch.hpp>
#include <neo/complex/scalar_complex.hpp>
#include <neo/math/float_equality.hpp>

using namespace model;

namespace {

template<typename T>
constexpr bool is_real = std::is_floating_point_v<T>;
template<typename T>
struct base
{
    using type = T;
};
template<typename T>
    requires(!is_real<T>)
struct base<T>
{
    using type = typename T::value_type;
};

template<typename A, typename B>
struct explorer
{
    using FA = typename base<A>::type;
    using FB = typename base<B>::type;
    // the common type of the difference
    using F = std::conditional_t<(sizeof(FA) > sizeof(FB)), FA, FB>;
    long id;

    template<typename T>
    static auto val(std::size_t i) -> T
    {
        using V = typename base<T>::type;
        if constexpr (is_real<T>) {
            return V(i % 7) - 3;
        } else {
            return T{V(i % 7) - 3, V(i % 5) - 2};
        }
    }

    /// at(i, side, f) modifies element i; close(tol) and close() call the library
    template<typename SetA, typename SetB, typename Run>
    void object(std::string const& where, std::size_t n, SetA seta, SetB setb, Run run)
    {
        auto expect = [&](bool got, bool want, char const* what, std::size_t p) {
            mc::transition();
            mc::states(1);
            mc::trace();
            mc::require(got == want, "%s, %s at element %zu: reported %s", where.c_str(), what, p, got ? "close" : "different");
        };
        auto reset = [&] {
            for (std::size_t i = 0; i < n; ++i) {
                seta(i, val<A>(i));
                setb(i, val<B>(i));
            }
        };
        reset();
        run([&](auto x, auto y) {
            expect(neo::allclose(x, y), true, "identical", 0);
            expect(neo::allclose(x, y, F(0)), true, "identical, tolerance 0", 0);
            std::size_t calls = 0;
            mc::require(neo::allmatch(x, y, [&](auto const&, auto const&) { ++calls; return true; }), "%s: always-true predicate did not match", where.c_str());
            mc::require(calls >= n, "%s: predicate saw %zu of %zu pairs", where.c_str(), calls, n);
            mc::require(neo::allmatch(x, [](auto const&) { return true; }), "%s: always-true unary predicate did not match", where.c_str());
            mc::require(neo::allmatch(x, y, [](auto const&, auto const&) { return false; }) == (n == 0), "%s: always-false predicate", where.c_str());
            mc::require(neo::allmatch(x, [](auto const&) { return false; }) == (n == 0), "%s: always-false unary predicate", where.c_str());
        });
        auto const small = std::is_same_v<F, float> ? F(1e-5) : F(1e-9);
        for (std::size_t p = 0; p < n; ++p) {
            if (n > 60 && p > 2 && p + 3 < n && p != n / 2 && p != 255 && p != 256 && p != 257 && p != 65535 && p != 65536) {
                continue;
            }
            // the tolerance is absolute, whatever the magnitude of the elements
            for (int sign : {1, -1}) {
                auto lift = [&](auto proto, double v) {
                    using T = decltype(proto);
                    using V = typename base<T>::type;
                    if constexpr (is_real<T>) {
                        return T(V(v));
                    } else {
                        return T{V(v), V(-v)};
                    }
                };
                for (double d : {0.0, 0.125, 0.25, 0.5}) {
                    reset();
                    seta(p, lift(A{}, sign * 1024.0));
                    auto moved = lift(B{}, sign * 1024.0);
                    moved += B(FB(d));
                    setb(p, moved);
                    run([&](auto x, auto y) {
                        expect(neo::allclose(x, y, F(0.25)), d <= 0.25, "difference between large elements", p);
                        expect(neo::allclose(x, y, F(0)), d == 0, "difference between large elements, tolerance 0", p);
                        expect(neo::allclose(x, y), d == 0, "difference between large elements, default tolerance", p);
                    });
                }
            }
            if constexpr (!is_real<A>) {
                // the difference of complex values is the magnitude of their difference (3-4-5 triangle)
                reset();
                seta(p, A{FA(1), FA(-2)});
                setb(p, B{FB(1 + 0.1875), FB(-2 - 0.25)});
                run([&](auto x, auto y) {
                    expect(neo::allclose(x, y, F(0.34375)), true, "complex difference below the tolerance", p);
                    expect(neo::allclose(x, y, F(0.28125)), false, "complex difference above the tolerance though both components are below", p);
                });
            }
            for (int side = 0; side < 2; ++side) {
                for (int comp = 0; comp < (is_real<A> ? 1 : 2); ++comp) {
                    for (int sign : {1, -1}) {
                        // tolerance 1/4, difference 1/4 (+- one step): all exact around zero
                        auto put = [&](auto d) {
                            reset();
                            auto one = [&](auto set, auto proto, auto v) {
                                using T = decltype(proto);
                                using V = typename base<T>::type;
                                if constexpr (is_real<T>) {
                                    set(p, T(V(v)));
                                } else {
                                    set(p, comp == 0 ? T{V(v), V(0)} : T{V(0), V(v)});
                                }
                            };
                            one(seta, A{}, side == 0 ? sign * d : decltype(d)(0));
                            one(setb, B{}, side == 1 ? sign * d : decltype(d)(0));
                        };
                        // steps in the precision of the side that carries the deviation
                        auto carry = [&](auto zero) {
                            using V       = decltype(zero);
                            auto const q  = V(0.25);
                            auto const up = std::nextafter(q, V(1)), down = std::nextafter(q, V(0));
                            put(q);
                            run([&](auto x, auto y) { expect(neo::allclose(x, y, F(0.25)), true, "difference equal to the tolerance", p); });
                            put(down);
                            run([&](auto x, auto y) { expect(neo::allclose(x, y, F(0.25)), true, "difference below the tolerance", p); });
                            put(up);
                            run([&](auto x, auto y) {
                                expect(neo::allclose(x, y, F(0.25)), false, "difference above the tolerance", p);
                                expect(neo::allclose(x, y), false, "difference above the default tolerance", p);
                                expect(neo::allclose(x, y, F(0)), false, "difference above tolerance 0", p);
                            });
                            put(V(small) * V(0.5));
                            run([&](auto x, auto y) { expect(neo::allclose(x, y), true, "half the default tolerance", p); });
                            put(V(small) * V(2));
                            run([&](auto x, auto y) { expect(neo::allclose(x, y), false, "twice the default tolerance", p); });
                            put(V(1000));
                            run([&](auto x, auto y) { expect(neo::allclose(x, y), false, "large difference", p); });
                            put(std::numeric_limits<V>::quiet_NaN());
                            run([&](auto x, auto y) { expect(neo::allclose(x, y), false, "NaN", p); });
                        };
                        if (side == 0) {
                            carry(FA{});
                        } else {
                            carry(FB{});
                        }
                    }
                }
            }
        }
        reset();
    }

    void masks(std::string const& where, std::size_t n, auto seta, auto setb, auto run)
    {
        for (std::size_t m = 0; m < (std::size_t(1) << n); ++m) {
            for (std::size_t i = 0; i < n; ++i) {
                seta(i, val<A>(i));
                setb(i, ((m >> i) & 1) != 0 ? val<B>(i) : B(val<B>(i) + B(FB(1))));
            }
            run([&](auto x, auto y) {
                auto const want = m + 1 == (std::size_t(1) << n);
                mc::require(neo::allclose(x, y) == want, "%s: match mask %zx gives %d", where.c_str(), m, !want);
                mc::require(neo::allclose(x, y, F(1)), "%s: match mask %zx, tolerance 1", where.c_str(), m);
                mc::require(neo::allmatch(x, y, [](auto a, auto b) { return a == b; }) == want, "%s: match mask %zx, allmatch gives %d", where.c_str(), m, !want);
            });
            mc::transition(3);
            mc::states(1);
            mc::trace();
        }
    }

    void run()
    {
        std::vector<std::size_t> sizes;
        for (std::size_t n = 0; n <= 40; ++n) {
            sizes.push_back(n);
        }
        sizes.insert(sizes.end(), {64, 100, 256, 257, 1000, 66000});
        for (auto n : sizes) {
            mc::check("vector", {id, long(n)}, [&] {
                for (int kind = 0; kind < 4; ++kind) {
                    buffer<A> a{n, std::size_t((kind & 1) != 0 ? 2 : 1)};
                    buffer<B> b{n, std::size_t((kind & 2) != 0 ? 3 : 1)};
                    auto seta = [&](std::size_t i, A v) { a.at(i) = v; };
                    auto setb = [&](std::size_t i, B v) { b.at(i) = v; };
                    auto go   = [&](auto fn) {
                        switch (kind) {
                            case 0: fn(a.cflat(), b.cflat()); break;
                            case 1: fn(a.cstrided(), b.cflat()); break;
                            case 2: fn(a.cflat(), b.cstrided()); break;
                            default: fn(a.cstrided(), b.cstrided());
                        }
                    };
                    auto const w = mc::format("vectors of %zu, kind %d", n, kind);
                    object(w, n, seta, setb, go);
                    if (n <= 10) {
                        masks(w, n, seta, setb, go);
                    }
                }
                mc::sample("vectors of %zu: a deviation at every position", n);
            });
        }
        std::vector<std::array<std::size_t, 2>> shapes;
        for (std::size_t r = 0; r <= 5; ++r) {
            for (std::size_t c = 0; c <= 5; ++c) {
                shapes.push_back({r, c});
            }
        }
        shapes.insert(shapes.end(), {{300, 3}, {3, 300}, {1, 258}, {258, 1}, {20, 20}});
        {
            for (auto [r, c] : shapes) {
                mc::check("matrix", {id, long(r), long(c)}, [&, r = r, c = c] {
                    for (int la = 0; la < 4; ++la) {
                        for (int lb = 0; lb < 4; ++lb) {
                            auto a    = make2<A>(la, r, c);
                            auto b    = make2<B>(lb, r, c);
                            auto seta = [&](std::size_t i, A v) { a.at(i / c, i % c) = v; };
                            auto setb = [&](std::size_t i, B v) { b.at(i / c, i % c) = v; };
                            auto go   = [&](auto fn) { with_view2(la, a, [&](auto x) { with_view2(lb, b, [&](auto y) { fn(x, y); }); }); };
                            auto const w = mc::format("%zux%zu matrices, layouts %d %d", r, c, la, lb);
                            object(w, r * c, seta, setb, go);
                            if (r * c <= 9) {
                                masks(w, r * c, seta, setb, go);
                            }
                        }
                    }
                });
            }
        }
    }
};

template<typename F>
void exact(long id)
{
    mc::check("exact", {id}, [&] {
        using C = std::complex<F>;
        auto const inf = std::numeric_limits<F>::infinity();
        std::vector<F> v{0, -F(0), 1, -1, std::nextafter(F(1), F(2)), std::nextafter(F(1), F(0)), F(0.1), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::max(), inf, -inf, std::numeric_limits<F>::quiet_NaN()};
        for (auto a : v) {
            for (auto b : v) {
                mc::require(neo::float_equality::exact(a, b) == (a == b), "exact(%Lg, %Lg) is %d", real(a), real(b), !(a == b));
                mc::transition();
                mc::states(1);
                mc::trace();
                for (auto c : v) {
                    for (auto d : v) {
                        mc::require(neo::float_equality::exact(C{a, b}, C{c, d}) == (a == c && b == d), "exact((%Lg,%Lg), (%Lg,%Lg)) wrong", real(a), real(b), real(c), real(d));
                        mc::transition();
                        mc::states(1);
                        mc::trace();
                    }
                }
            }
        }
    });
}

/// extents counted in other types, up to the largest each can count
template<typename T>
void index_types(long id)
{
    indexed::for_types([&]<typename I>(long type, std::size_t most) {
        for (auto n : indexed::sizes(most)) {
            mc::check("indexed", {id, type, long(n)}, [&] {
                std::vector<T> a(n + 1, T(1)), b(n + 1, T(1));
                a[n] = T(5);  // behind the last element: must not matter
                auto const A = indexed::flat<I>(a.data(), n);
                auto const B = indexed::flat<I>(b.data(), n);
                auto const S = indexed::strided<I>(b.data(), n, 1);
                auto const W = indexed::flat<std::size_t>(b.data(), n);
                auto const verdict = [&](bool want, std::size_t at) {
                    mc::require(neo::allclose(A, B) == want && neo::allclose(B, A) == want && neo::allclose(A, S) == want && neo::allclose(A, W) == want && neo::allclose(W, A) == want,
                                "allclose of %zu elements, index type %ld, difference at %zu", n, type, at);
                    mc::require(neo::allmatch(B, [](auto v) { return v == T(1); }) == want, "allmatch of %zu elements, index type %ld, difference at %zu", n, type, at);
                    mc::transition(6);
                    mc::states(1);
                };
                verdict(true, n);
                for (std::size_t at : {std::size_t(0), n / 2, std::size_t(126), std::size_t(127), std::size_t(128), std::size_t(254), std::size_t(255), std::size_t(256), std::size_t(32767), n - 1}) {
                    if (at < n) {
                        b[at] = T(2);
                        verdict(false, at);
                        b[at] = T(1);
                    }
                }
                mc::trace();
            });
        }
        for (auto [r, c] : indexed::shapes(most)) {
            mc::check("indexed2", {id, type, long(r), long(c)}, [&, r = r, c = c] {
                std::vector<T> a(r * c, T(1)), b(r * c, T(1));
                auto const all = [&](auto A, auto B) {
                    mc::require(neo::allclose(A, B), "allclose of equal %zux%zu, index type %ld", r, c, type);
                    for (std::size_t at : {std::size_t(0), r * c / 2, c - 1, r * c - 1}) {
                        if (at < r * c) {
                            b[at] = T(2);
                            mc::require(!neo::allclose(A, B) && !neo::allclose(B, A), "allclose of %zux%zu, index type %ld, difference at %zu", r, c, type, at);
                            b[at] = T(1);
                        }
                    }
                    mc::transition(9);
                    mc::states(5);
                };
                all(indexed::matrix<I>(a.data(), r, c), indexed::matrix<I>(b.data(), r, c));
                all(indexed::matrix<I>(a.data(), r, c), indexed::matrix<I, stdex::layout_left>(b.data(), r, c));
                mc::trace();
            });
        }
    });
}

void run()
{
#if MC_PART == 0
    explorer<float, float>{0}.run();
    explorer<float, double>{1}.run();
    explorer<std::complex<double>, std::complex<double>>{2}.run();
    exact<float>(0);
    index_types<float>(20);
#else
    explorer<double, double>{3}.run();
    explorer<double, float>{4}.run();
    explorer<std::complex<float>, std::complex<float>>{5}.run();
    exact<double>(1);
    index_types<std::complex<double>>(21);
#endif
}

}  // namespace

MC_MAIN(run)
