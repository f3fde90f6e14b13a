// MC-TITLE: Element-wise operations touch every element exactly once and nothing else
// MC-TECH: all operations x extents x layouts x alignments x aliasing patterns x element types x instruction sets, each result compared element by element with extended-precision arithmetic, with guard elements around and between
// MC-QUICK: v3 sse2 avx512 gcc neon
// MC-THOROUGH: sse2x sse41 v3rel avx512rel
// MC-PARTS: 3
// MC-BOUNDS: Rank 1: extents 0..40, 63..65, 100 (thorough 0..200), four alignments, contiguous, strided, mixed and exactly sized (red-zoned) buffers, static and dynamic extents, extents counted in seven integer types up to the largest they can count, all aliasing patterns of output with inputs; long extents 127..70003; signed zeros, subnormals, extremes and infinities at every position of extents to 20; rank 2: all shapes 0..5 x 0..5 and 3x17, 17x3, 33x33, 2x257, 300x3, ... in all 64 combinations of four layouts; float, double, std::complex and neo::scalar_complex of both, long double and int on small whole numbers; 65537x1, 1x65537 and 32769x2 with one layout for all operands; mixed scalar types; split-complex multiply-add and copies with every aliasing of real/imaginary planes.
#include "indexed.hpp"
#include "model.hpp"

#include <neo/algorithm/add.hpp>
#include <neo/algorithm/copy.hpp>
#include <neo/algorithm/fill.hpp>
#include <neo/algorithm/multiply.hpp>
#include <neo/algorithm/multiply_add.hpp>
#include <neo/algorithm/scale.hpp>
#include <neo/complex/scalar_complex.hpp>

using namespace model;

namespace {

template<typename T>
constexpr bool is_real = std::is_arithmetic_v<T>;
template<typename T>
struct base
{
    using type = T;
};
template<typename T>
    requires(!is_real<T>)
struct base<T>
{
    using type = typename T::value_type;
};

template<typename T>
auto up(T v) -> cplx
{
    if constexpr (is_real<T>) {
        return cplx{real(v), 0};
    } else {
        return lift(v);
    }
}
template<typename T>
auto make(std::size_t i, int salt) -> T
{
    using F     = typename base<T>::type;
    auto const a = F(long((i * 37 + std::size_t(salt) * 11 + 5) % 101) - 50) / F(7);
    auto const b = F(long((i * 53 + std::size_t(salt) * 17 + 9) % 97) - 48) / F(9);
    if constexpr (is_real<T>) {
        return a;
    } else {
        return T{a, b};
    }
}

/// one vector: kind 0..3 contiguous at four alignments, 4 strided, 5 exactly sized
template<typename T>
struct vecbuf
{
    std::size_t n, off, stride;
    std::vector<T> mem;
    vecbuf(std::size_t n_, int kind, int salt)
        : n{n_}
        , off(kind == 5 ? 0 : 3 + std::size_t(kind & 3))
        , stride(kind == 4 ? 3 : 1)
        , mem(kind == 5 ? n_ : off + n_ * stride + 20)
    {
        if (!mem.empty()) {
            std::memset(static_cast<void*>(mem.data()), 0x5a, mem.size() * sizeof(T));
        }
        for (std::size_t i = 0; i < n; ++i) {
            at(i) = make<T>(i, salt);
        }
    }
    auto at(std::size_t i) -> T& { return mem[off + i * stride]; }
    auto ptr() -> T* { return mem.data() + off; }
    void guards(char const* what)
    {
        for (std::size_t i = 0; i < mem.size(); ++i) {
            if (i >= off && (i - off) % stride == 0 && (i - off) / stride < n) {
                continue;
            }
            auto const* b = reinterpret_cast<unsigned char const*>(&mem[i]);
            for (std::size_t k = 0; k < sizeof(T); ++k) {
                mc::require(b[k] == 0x5a, "%s n=%zu: element at offset %ld outside the view was written", what, n, long(i) - long(off));
            }
        }
    }
    auto snapshot() const -> std::vector<unsigned char>
    {
        std::vector<unsigned char> s(mem.size() * sizeof(T));
        if (!s.empty()) {
            std::memcpy(s.data(), mem.data(), s.size());
        }
        return s;
    }
    template<typename Fn>
    void view(Fn fn)
    {
        if (stride == 1) {
            fn(span1<T>{ptr(), ext1{n}});
        } else {
            using map = Kokkos::layout_stride::mapping<ext1>;
            fn(strided1<T>{ptr(), map{ext1{n}, std::array<std::size_t, 1>{stride}}});
        }
    }
};

template<typename T>
auto tol(cplx a, cplx b, cplx c) -> real
{
    using F = typename base<T>::type;
    return eps<F>() * (4 * (std::abs(a.real()) + std::abs(a.imag())) * (std::abs(b.real()) + std::abs(b.imag())) + 2 * std::abs(c) + 1e-30L);
}

template<typename T>
struct rank1
{
    long id;
    char const* op{""};
    std::size_t n{0};

    void element(std::size_t i, T got, cplx want, real t)
    {
        if (dist(up(got), want) > t) {
            mc::fail("%s n=%zu: element %zu is (%Lg,%Lg), expected (%Lg,%Lg)", op, n, i, up(got).real(), up(got).imag(), want.real(), want.imag());
        }
    }
    void done(vecbuf<T>& o)
    {
        o.guards(op);
        mc::hasher h;
        h.bytes(o.mem.data(), o.mem.size() * sizeof(T)).add(id).add(n).bytes(op, std::strlen(op));
        mc::outcome(h.h);
        mc::transition();
        mc::states(n + 1);
        mc::trace();
    }

    // out aliases: 0 separate, 1 = x, 2 = y, 3 = z, 4 all the same
    void binary(int kx, int ky, int ko, int alias)
    {
        for (int which = 0; which < 2; ++which) {
            op = which == 0 ? "add" : "multiply";
            vecbuf<T> x{n, kx, 1}, y{n, ky, 2}, o{n, ko, 3};
            auto& yy = alias == 4 ? x : y;
            auto& oo = alias == 1 || alias == 4 ? x : (alias == 2 ? y : o);
            std::vector<cplx> want(n);
            std::vector<real> t(n);
            for (std::size_t i = 0; i < n; ++i) {
                auto const a = up(x.at(i)), b = up(yy.at(i));
                want[i] = which == 0 ? a + b : a * b;
                t[i]    = which == 0 ? tol<T>(0, 0, want[i]) : tol<T>(a, b, 0);
            }
            auto const sx = x.snapshot(), sy = y.snapshot();
            x.view([&](auto xv) {
                yy.view([&](auto yv) {
                    oo.view([&](auto ov) {
                        if (which == 0) {
                            neo::add(xv, yv, ov);
                        } else {
                            neo::multiply(xv, yv, ov);
                        }
                    });
                });
            });
            for (std::size_t i = 0; i < n; ++i) {
                element(i, oo.at(i), want[i], t[i]);
            }
            mc::require(&oo == &x || sx == x.snapshot(), "%s n=%zu changed its first operand", op, n);
            mc::require(&oo == &y || sy == y.snapshot(), "%s n=%zu changed its second operand", op, n);
            done(oo);
        }
    }
    void ternary(int kx, int ky, int kz, int ko, int alias)
    {
        op = "multiply_add";
        vecbuf<T> x{n, kx, 1}, y{n, ky, 2}, z{n, kz, 3}, o{n, ko, 4};
        auto& yy = alias == 4 ? x : y;
        auto& zz = alias == 4 ? x : z;
        auto& oo = alias == 1 || alias == 4 ? x : (alias == 2 ? y : (alias == 3 ? z : o));
        std::vector<cplx> want(n);
        std::vector<real> t(n);
        for (std::size_t i = 0; i < n; ++i) {
            auto const a = up(x.at(i)), b = up(yy.at(i)), c = up(zz.at(i));
            want[i] = a * b + c;
            t[i]    = tol<T>(a, b, c);
        }
        auto const sx = x.snapshot(), sy = y.snapshot(), sz = z.snapshot();
        x.view([&](auto xv) { yy.view([&](auto yv) { zz.view([&](auto zv) { oo.view([&](auto ov) { neo::multiply_add(xv, yv, zv, ov); }); }); }); });
        for (std::size_t i = 0; i < n; ++i) {
            element(i, oo.at(i), want[i], t[i]);
        }
        mc::require(&oo == &x || sx == x.snapshot(), "multiply_add n=%zu changed x", n);
        mc::require(&oo == &y || sy == y.snapshot(), "multiply_add n=%zu changed y", n);
        mc::require(&oo == &z || sz == z.snapshot(), "multiply_add n=%zu changed z", n);
        done(oo);
    }
    void unary(int k)
    {
        using F = typename base<T>::type;
        for (auto alpha : {F(0), F(1), F(-2.5), F(1) / F(3)}) {
            op = "scale";
            vecbuf<T> x{n, k, 1};
            auto y = x;
            x.view([&](auto v) { neo::scale(alpha, v); });
            for (std::size_t i = 0; i < n; ++i) {
                element(i, x.at(i), up(y.at(i)) * real(alpha), tol<T>(up(y.at(i)), real(alpha), 0));
            }
            done(x);
            op = "fill";
            x.view([&](auto v) { neo::fill(v, T(alpha)); });
            for (std::size_t i = 0; i < n; ++i) {
                element(i, x.at(i), real(alpha), 0);
            }
            done(x);
            if constexpr (is_real<T>) {
                // scale factor of another type, as the library itself uses it
                op     = "scale by double";
                auto w = y;
                w.view([&](auto v) { neo::scale(double(alpha), v); });
                for (std::size_t i = 0; i < n; ++i) {
                    element(i, w.at(i), up(y.at(i)) * real(double(alpha)), tol<T>(up(y.at(i)), real(alpha), 0));
                }
                done(w);
            } else {
                op           = "complex scale";
                auto w       = y;
                auto const c = T{alpha, F(0.75)};
                w.view([&](auto v) { neo::scale(c, v); });
                for (std::size_t i = 0; i < n; ++i) {
                    element(i, w.at(i), up(y.at(i)) * up(c), tol<T>(up(y.at(i)), up(c), 0));
                }
                done(w);
                op = "complex fill";
                w.view([&](auto v) { neo::fill(v, c); });
                for (std::size_t i = 0; i < n; ++i) {
                    element(i, w.at(i), up(c), 0);
                }
                done(w);
            }
        }
        for (int k2 = 0; k2 < 6; ++k2) {
            op = "copy";
            vecbuf<T> x{n, k, 1}, o{n, k2, 2};
            auto const sx = x.snapshot();
            x.view([&](auto xv) { o.view([&](auto ov) { neo::copy(xv, ov); }); });
            for (std::size_t i = 0; i < n; ++i) {
                element(i, o.at(i), up(x.at(i)), 0);
            }
            mc::require(sx == x.snapshot(), "copy n=%zu changed its source", n);
            done(o);
        }
    }
    void unary_large(int k)
    {
        using F = typename base<T>::type;
        op      = "scale";
        vecbuf<T> x{n, k, 1};
        auto y = x;
        x.view([&](auto v) { neo::scale(F(-2.5), v); });
        for (std::size_t i = 0; i < n; ++i) {
            element(i, x.at(i), up(y.at(i)) * real(-2.5L), tol<T>(up(y.at(i)), real(2.5L), 0));
        }
        done(x);
        op = "fill";
        x.view([&](auto v) { neo::fill(v, T(F(0.625))); });
        for (std::size_t i = 0; i < n; ++i) {
            element(i, x.at(i), real(0.625L), 0);
        }
        done(x);
        op = "copy";
        vecbuf<T> o{n, (k + 1) % 6, 2};
        y.view([&](auto v) { o.view([&](auto ov) { neo::copy(v, ov); }); });
        for (std::size_t i = 0; i < n; ++i) {
            element(i, o.at(i), up(y.at(i)), 0);
        }
        done(o);
    }
    /// signed zeros, subnormals, extremes and infinities at every position of short vectors
    void special()
    {
        using F = typename base<T>::type;
        using L = std::numeric_limits<F>;
        F const vals[] = {F(0), F(-0.0), L::denorm_min(), -L::denorm_min(), L::min(), L::max(), -L::max(), L::infinity(), -L::infinity(), L::epsilon(), F(1), F(-1)};
        auto one = [](F v) {
            if constexpr (is_real<T>) {
                return v;
            } else {
                return T{v, v};
            }
        };
        auto same = [&](F a, F b) { return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof(F)) == 0; };
        auto re   = [](T v) -> F {
            if constexpr (is_real<T>) {
                return v;
            } else {
                return v.real();
            }
        };
        auto im = [](T v) -> F {
            if constexpr (is_real<T>) {
                return v;
            } else {
                return v.imag();
            }
        };
        for (std::size_t s = 1; s <= 20; ++s) {
            n = s;
            for (std::size_t pos = 0; pos < s; ++pos) {
                for (F v : vals) {
                    for (int k : {0, 4}) {
                        op = "copy";
                        vecbuf<T> x{n, k, 1}, o{n, 0, 2};
                        x.at(pos) = one(v);
                        x.view([&](auto xv) { o.view([&](auto ov) { neo::copy(xv, ov); }); });
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(same(re(o.at(i)), re(x.at(i))) && same(im(o.at(i)), im(x.at(i))), "copy n=%zu: element %zu (%Lg) is not the source's (%Lg)", n, i, (real)re(o.at(i)), (real)re(x.at(i)));
                        }
                        done(o);
                        op = "fill";
                        x.view([&](auto xv) { neo::fill(xv, one(v)); });
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(same(re(x.at(i)), v) && same(im(x.at(i)), v), "fill n=%zu with %Lg: element %zu is %Lg", n, (real)v, i, (real)re(x.at(i)));
                        }
                        done(x);
                        for (F w : vals) {
                            op = "add";
                            vecbuf<T> a{n, k, 1}, b{n, 1, 3}, c{n, 2, 4};
                            a.at(pos) = one(v);
                            b.at(pos) = one(w);
                            a.view([&](auto av) { b.view([&](auto bv) { c.view([&](auto cv) { neo::add(av, bv, cv); }); }); });
                            mc::require(same(re(c.at(pos)), v + w) && same(im(c.at(pos)), v + w), "add n=%zu: element %zu is %Lg for %Lg + %Lg", n, pos, (real)re(c.at(pos)), (real)v, (real)w);
                            mc::transition();
                            if constexpr (is_real<T>) {
                                a.view([&](auto av) { b.view([&](auto bv) { c.view([&](auto cv) { neo::multiply(av, bv, cv); }); }); });
                                mc::require(same(c.at(pos), v * w), "multiply n=%zu: element %zu is %Lg for %Lg * %Lg", n, pos, (real)c.at(pos), (real)v, (real)w);
                                a.view([&](auto av) { neo::scale(w, av); });
                                mc::require(same(a.at(pos), v * w), "scale n=%zu: element %zu is %Lg for %Lg * %Lg", n, pos, (real)a.at(pos), (real)v, (real)w);
                                mc::transition(2);
                            }
                        }
                    }
                }
            }
        }
    }
    /// const and static-extent views take the same paths
    template<std::size_t N>
    void fixed()
    {
        n  = N;
        op = "static extents";
        using S = Kokkos::extents<std::size_t, N>;
        vecbuf<T> x{N, 1, 1}, y{N, 2, 2}, z{N, 3, 3}, o{N, 0, 4};
        auto xs = Kokkos::mdspan<T const, S>{x.ptr()};
        auto ys = Kokkos::mdspan<T const, S>{y.ptr()};
        auto zs = Kokkos::mdspan<T const, S>{z.ptr()};
        auto os = Kokkos::mdspan<T, S>{o.ptr()};
        neo::multiply_add(xs, ys, zs, os);
        for (std::size_t i = 0; i < N; ++i) {
            element(i, o.at(i), up(x.at(i)) * up(y.at(i)) + up(z.at(i)), tol<T>(up(x.at(i)), up(y.at(i)), up(z.at(i))));
        }
        neo::multiply(xs, ys, os);
        for (std::size_t i = 0; i < N; ++i) {
            element(i, o.at(i), up(x.at(i)) * up(y.at(i)), tol<T>(up(x.at(i)), up(y.at(i)), 0));
        }
        neo::add(xs, ys, os);
        for (std::size_t i = 0; i < N; ++i) {
            element(i, o.at(i), up(x.at(i)) + up(y.at(i)), tol<T>(1, up(x.at(i)) + up(y.at(i)), 0));
        }
        neo::copy(xs, os);
        for (std::size_t i = 0; i < N; ++i) {
            element(i, o.at(i), up(x.at(i)), 0);
        }
        done(o);
    }

    void run()
    {
        std::vector<std::size_t> sizes;
        for (std::size_t i = 0; i <= (mc::thorough() ? 200U : 40U); ++i) {
            sizes.push_back(i);
        }
        if (!mc::thorough()) {
            sizes.insert(sizes.end(), {63, 64, 65, 100});
        }
        for (auto s : sizes) {
            mc::check("rank1", {id, long(s)}, [&] {
                n = s;
                for (int k = 0; k < 6; ++k) {
                    unary(k);
                }
                for (int alias = 0; alias <= 4; ++alias) {
                    for (int k = 0; k < 6; ++k) {
                        for (int k2 = 0; k2 < 6; ++k2) {
                            if (alias != 3) {
                                binary(k, k2, (k + k2) % 6, alias);
                            }
                            ternary(k, k2, (k * 2 + k2) % 6, (k + k2) % 6, alias);
                        }
                        ternary(k, k, k, k, alias);
                        if (alias != 3) {
                            binary(k, k, k, alias);
                        }
                    }
                }
                mc::sample("rank 1, extent %zu: all operations, alignments, aliasings", s);
            });
        }
        for (std::size_t s : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4099, 32767, 32769, 65535, 65536, 65537, 70003}) {
            mc::check("large", {id, long(s)}, [&] {
                n = s;
                for (int k : {0, 1, 4, 5}) {
                    unary_large(k);
                    for (int alias = 0; alias <= 4; ++alias) {
                        if (alias != 3) {
                            binary(k, 5, (k + alias) % 6, alias);
                        }
                        ternary(k, 1, 5, (k + alias) % 6, alias);
                    }
                }
                for (int alias = 0; alias <= 4; ++alias) {
                    ternary(0, 0, 0, 0, alias);
                    ternary(5, 5, 5, 5, alias);
                }
                mc::sample("rank 1, extent %zu", s);
            });
        }
        mc::check("special", {id}, [&] { special(); });
        mc::check("static", {id}, [&] {
            fixed<1>();
            fixed<4>();
            fixed<7>();
            fixed<16>();
            fixed<19>();
        });
    }
};

template<typename T>
struct rank2
{
    long id;
    void shape(std::size_t r, std::size_t c)
    {
        using F        = typename base<T>::type;
        auto const big = r * c > 60000;  // one layout for all operands
        for (int lx = 0; lx < 4; ++lx) {
            for (int lo = 0; lo < 4; ++lo) {
                if (big && lx != lo) {
                    continue;
                }
                auto load = [&](int l, int salt) {
                    auto b = make2<T>(l, r, c);
                    for (std::size_t i = 0; i < r; ++i) {
                        for (std::size_t j = 0; j < c; ++j) {
                            b.at(i, j) = make<T>(i * 31 + j, salt);
                        }
                    }
                    return b;
                };
                auto verify = [&](char const* op, buffer2<T>& o, auto want, auto t) {
                    for (std::size_t i = 0; i < r; ++i) {
                        for (std::size_t j = 0; j < c; ++j) {
                            auto const w = want(i, j);
                            if (dist(up(o.at(i, j)), w) > t(i, j)) {
                                mc::fail("%s %zux%zu layouts %d/%d: element (%zu,%zu) is (%Lg,%Lg), expected (%Lg,%Lg)", op, r, c, lx, lo, i, j, up(o.at(i, j)).real(), up(o.at(i, j)).imag(), w.real(), w.imag());
                            }
                        }
                    }
                    o.check_guards(op);
                    mc::transition();
                    mc::states(r * c + 1);
                    mc::trace();
                    mc::outcome(mc::hasher{}.bytes(o.mem.data(), o.mem.size() * sizeof(T)).add(id).add(lx).add(lo).h);
                };
                auto exact = [](std::size_t, std::size_t) { return real(0); };
                for (int ly = 0; ly < 4; ++ly) {
                    if (big && lx != ly) {
                        continue;
                    }
                    for (int alias = 0; alias < 3; ++alias) {
                        for (int which = 0; which < 2; ++which) {
                            auto x = load(lx, 1), y = load(ly, 2), o = load(lo, 3);
                            auto const x0 = x, y0 = y;
                            auto& oo = alias == 0 ? o : (alias == 1 ? x : y);
                            auto const l = alias == 0 ? lo : (alias == 1 ? lx : ly);
                            with_view2(lx, x, [&](auto xv) {
                                with_view2(ly, y, [&](auto yv) {
                                    with_view2(l, oo, [&](auto ov) {
                                        if (which == 0) {
                                            neo::add(xv, yv, ov);
                                        } else {
                                            neo::multiply(xv, yv, ov);
                                        }
                                    });
                                });
                            });
                            auto xa = [&](std::size_t i, std::size_t j) { return up(const_cast<buffer2<T>&>(x0).at(i, j)); };
                            auto ya = [&](std::size_t i, std::size_t j) { return up(const_cast<buffer2<T>&>(y0).at(i, j)); };
                            verify(which == 0 ? "add" : "multiply", oo, [&](std::size_t i, std::size_t j) { return which == 0 ? xa(i, j) + ya(i, j) : xa(i, j) * ya(i, j); },
                                   [&](std::size_t i, std::size_t j) { return which == 0 ? tol<T>(0, 0, xa(i, j) + ya(i, j)) : tol<T>(xa(i, j), ya(i, j), 0); });
                            if (&oo != &x) {
                                mc::require(x.mem == x0.mem, "operand x changed");
                            }
                            if (&oo != &y) {
                                mc::require(y.mem == y0.mem, "operand y changed");
                            }
                        }
                    }
                }
                {
                    auto x = load(lx, 1), o = load(lo, 3);
                    with_view2(lx, x, [&](auto xv) { with_view2(lo, o, [&](auto ov) { neo::copy(xv, ov); }); });
                    verify("copy", o, [&](std::size_t i, std::size_t j) { return up(x.at(i, j)); }, exact);
                }
                if (lx == 0 || big) {
                    auto x = load(lo, 1), y = x;
                    with_view2(lo, x, [&](auto v) { neo::scale(F(-1.75), v); });
                    verify("scale", x, [&](std::size_t i, std::size_t j) { return up(y.at(i, j)) * real(-1.75L); }, [&](std::size_t i, std::size_t j) { return tol<T>(up(y.at(i, j)), 2, 0); });
                    with_view2(lo, x, [&](auto v) { neo::fill(v, T(F(0.5))); });
                    verify("fill", x, [&](std::size_t, std::size_t) { return cplx{0.5L, 0}; }, exact);
                }
            }
        }
    }
    void run()
    {
        for (std::size_t r = 0; r <= 5; ++r) {
            for (std::size_t c = 0; c <= 5; ++c) {
                mc::check("rank2", {id, long(r), long(c)}, [&] { shape(r, c); });
            }
        }
        mc::check("rank2", {id, 3, 17}, [&] { shape(3, 17); });
        mc::check("rank2", {id, 17, 3}, [&] { shape(17, 3); });
        for (auto [r, c] : {std::array<std::size_t, 2>{1, 65}, {65, 1}, {33, 33}, {2, 257}, {257, 2}, {1, 1000}, {300, 3}, {3, 300}, {65537, 1}, {1, 65537}, {32769, 2}}) {
            mc::check("rank2", {id, long(r), long(c)}, [&, r = r, c = c] { shape(r, c); });
        }
    }
};

template<typename A, typename B, typename Fn>
void pack(A re, B im, Fn fn)
{
    if constexpr (std::is_same_v<A, B>) {
        fn(neo::split_complex<A>{re, im});
    } else {
        mc::fail("harness: planes of different view types");
    }
}

/// split-complex forms; planes may alias planes of other operands as whole vectors
template<typename F>
struct split
{
    long id;
    void run()
    {
        using C = std::complex<F>;
        std::vector<std::size_t> sizes;
        for (std::size_t n = 0; n <= (mc::thorough() ? 140U : 40U); ++n) {
            sizes.push_back(n);
        }
        sizes.insert(sizes.end(), {255, 256, 257, 1000, 4099, 65537});
        for (auto n : sizes) {
            mc::check("split", {id, long(n)}, [&] {
                auto const step = n > 200 ? 5 : 1;  // long vectors: aligned and exactly sized only
                for (int kx = 0; kx < 6; kx += step) {
                    for (int ky = 0; ky < 6; ky += step) {
                        for (int alias = 0; alias < 4; ++alias) {
                            // kinds: all planes of one operand share a kind (a split vector has one view type)
                            auto const kz = (kx + ky) % 6, ko = (kx + 2 * ky) % 6;
                            vecbuf<F> p[8] = {{n, kx, 1}, {n, kx, 2}, {n, ky, 3}, {n, ky, 4}, {n, kz, 5}, {n, kz, 6}, {n, ko, 7}, {n, ko, 8}};
                            auto const o   = alias == 0 ? 6 : (alias - 1) * 2;
                            std::vector<cplx> want(n), a(n), b(n), c(n);
                            for (std::size_t i = 0; i < n; ++i) {
                                a[i]    = {real(p[0].at(i)), real(p[1].at(i))};
                                b[i]    = {real(p[2].at(i)), real(p[3].at(i))};
                                c[i]    = {real(p[4].at(i)), real(p[5].at(i))};
                                want[i] = a[i] * b[i] + c[i];
                            }
                            std::vector<std::vector<unsigned char>> before;
                            for (auto& q : p) {
                                before.push_back(q.snapshot());
                            }
                            auto sc = [&](int q, auto fn) {
                                p[q].view([&](auto re) { p[q + 1].view([&](auto im) { pack(re, im, fn); }); });
                            };
                            sc(0, [&](auto x) { sc(2, [&](auto y) { sc(4, [&](auto z) { sc(o, [&](auto out) { neo::multiply_add(x, y, z, out); }); }); }); });
                            mc::transition();
                            for (std::size_t i = 0; i < n; ++i) {
                                auto const got = cplx{real(p[o].at(i)), real(p[o + 1].at(i))};
                                if (dist(got, want[i]) > tol<C>(a[i], b[i], c[i])) {
                                    mc::fail("split multiply_add n=%zu kinds %d %d %d %d alias %d: element %zu is (%Lg,%Lg), expected (%Lg,%Lg)", n, kx, ky, kz, ko, alias, i, got.real(), got.imag(), want[i].real(), want[i].imag());
                                }
                            }
                            for (int q = 0; q < 8; ++q) {
                                p[q].guards("split multiply_add");
                                mc::require(q == o || q == o + 1 || p[q].snapshot() == before[std::size_t(q)], "split multiply_add n=%zu changed operand plane %d", n, q);
                            }
                            mc::outcome(mc::hasher{}.bytes(p[o].mem.data(), p[o].mem.size() * sizeof(F)).h);
                            mc::states(n + 1);
                            mc::trace();
                        }
                        // interleaved <-> split copies
                        vecbuf<C> in{n, kx, 1};
                        vecbuf<F> re{n, ky, 2}, im{n, ky, 3};
                        in.view([&](auto v) {
                            re.view([&](auto r) { im.view([&](auto m) { pack(r, m, [&](auto s) { neo::copy(v, s); }); }); });
                        });
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(re.at(i) == in.at(i).real() && im.at(i) == in.at(i).imag(), "copy to split complex n=%zu: element %zu differs", n, i);
                        }
                        re.guards("copy to split complex");
                        im.guards("copy to split complex");
                        vecbuf<C> out{n, kx, 4};
                        re.view([&](auto r) {
                            im.view([&](auto m) { pack(r, m, [&](auto s) { out.view([&](auto v) { neo::copy(s, v); }); }); });
                        });
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(out.at(i) == in.at(i), "copy from split complex n=%zu: element %zu differs", n, i);
                        }
                        out.guards("copy from split complex");
                        mc::transition(2);
                        mc::states(2 * n + 2);
                        mc::trace(2);
                    }
                }
            });
        }
    }
};

/// extents counted in other types, up to the largest each can count (small integers: every result is exact)
template<typename T>
void index_types(long id)
{
    indexed::for_types([&]<typename I>(long type, std::size_t most) {
        for (auto n : indexed::sizes(most)) {
            mc::check("indexed", {id, type, long(n)}, [&] {
                auto const val = [](std::size_t i, int s) { return T(static_cast<typename base<T>::type>(long((i * 7 + std::size_t(s) * 5) % 13) - 6)); };
                for (int st : {1, 2}) {
                    if (std::size_t(st) * n > most) {
                        continue;
                    }
                    auto const m = n * std::size_t(st);
                    std::vector<T> a(m + 1), b(m + 1), z(m + 1), o(m + 1);
                    auto const reset = [&] {
                        for (std::size_t i = 0; i <= m; ++i) {
                            a[i] = val(i, 0);
                            b[i] = val(i, 1);
                            z[i] = val(i, 2);
                            o[i] = T(77);
                        }
                    };
                    auto const all = [&](auto view) {
                        auto const expect = [&](char const* what, auto want) {
                            for (std::size_t i = 0; i <= m; ++i) {
                                auto const inside = i < m && i % std::size_t(st) == 0;
                                mc::require(o[i] == (inside ? want(i) : T(77)), "%s over %zu elements, stride %d, index type %ld: element %zu is wrong", what, n, st, type, i);
                                mc::require(a[i] == val(i, 0) && b[i] == val(i, 1) && z[i] == val(i, 2), "%s over %zu elements, index type %ld changed an operand", what, n, type);
                            }
                            reset();
                            mc::transition();
                            mc::states(1);
                        };
                        reset();
                        auto const A = view(a), B = view(b), Z = view(z), O = view(o);
                        neo::copy(A, O);
                        expect("copy", [&](auto i) { return a[i]; });
                        neo::fill(O, T(3));
                        expect("fill", [&](auto) { return T(3); });
                        neo::copy(A, O);
                        neo::scale(T(2), O);
                        expect("scale", [&](auto i) { return T(2) * a[i]; });
                        neo::add(A, B, O);
                        expect("add", [&](auto i) { return a[i] + b[i]; });
                        neo::multiply(A, B, O);
                        expect("multiply", [&](auto i) { return a[i] * b[i]; });
                        neo::multiply_add(A, B, Z, O);
                        expect("multiply_add", [&](auto i) { return a[i] * b[i] + z[i]; });
                    };
                    if (st == 1) {
                        all([&](auto& v) { return indexed::flat<I>(v.data(), n); });
                    }
                    all([&](auto& v) { return indexed::strided<I>(v.data(), n, std::size_t(st)); });
                }
                mc::trace();
            });
        }
        for (auto [r, c] : indexed::shapes(most)) {
            mc::check("indexed2", {id, type, long(r), long(c)}, [&, r = r, c = c] {
                auto const val = [](std::size_t i, int s) { return T(static_cast<typename base<T>::type>(long((i * 7 + std::size_t(s) * 5) % 13) - 6)); };
                std::vector<T> a(r * c), b(r * c), o(r * c);
                auto const all = [&](auto A, auto B, auto O) {
                    auto const expect = [&](char const* what, auto want) {
                        for (std::size_t i = 0; i < r; ++i) {
                            for (std::size_t j = 0; j < c; ++j) {
                                mc::require(O(I(i), I(j)) == want(A(I(i), I(j)), B(I(i), I(j))), "%s over %zux%zu, index type %ld: element (%zu,%zu) is wrong", what, r, c, type, i, j);
                            }
                        }
                        mc::transition();
                        mc::states(1);
                    };
                    for (std::size_t i = 0; i < r * c; ++i) {
                        a[i] = val(i, 0);
                        b[i] = val(i, 1);
                    }
                    neo::copy(A, O);
                    expect("copy", [](auto x, auto) { return x; });
                    neo::scale(T(2), O);
                    expect("scale", [](auto x, auto) { return T(2) * x; });
                    neo::add(A, B, O);
                    expect("add", [](auto x, auto y) { return x + y; });
                    neo::multiply(A, B, O);
                    expect("multiply", [](auto x, auto y) { return x * y; });
                    neo::fill(O, T(4));
                    expect("fill", [](auto, auto) { return T(4); });
                };
                using R = stdex::layout_right;
                using L = stdex::layout_left;
                all(indexed::matrix<I, R>(a.data(), r, c), indexed::matrix<I, R>(b.data(), r, c), indexed::matrix<I, R>(o.data(), r, c));
                all(indexed::matrix<I, L>(a.data(), r, c), indexed::matrix<I, L>(b.data(), r, c), indexed::matrix<I, L>(o.data(), r, c));
                all(indexed::matrix<I, L>(a.data(), r, c), indexed::matrix<I, R>(b.data(), r, c), indexed::matrix<I, L>(o.data(), r, c));
                mc::trace();
            });
        }
    });
}

void run()
{
#if MC_PART == 0
    rank1<float>{0}.run();
    rank1<std::complex<float>>{1}.run();
    rank1<double>{2}.run();
    rank1<std::complex<double>>{3}.run();
    rank1<neo::complex64>{6}.run();
    rank1<neo::complex128>{7}.run();
    split<float>{4}.run();
    split<double>{5}.run();
#elif MC_PART == 2
    index_types<float>(20);
    #if defined(__clang__) && defined(__AVX2__) && !defined(__AVX512F__)  // these do not depend on the instruction set
    index_types<std::complex<double>>(21);
    index_types<long double>(22);
    index_types<std::complex<long double>>(23);
    index_types<int>(24);
    #endif
#else
    rank2<float>{0}.run();
    rank2<std::complex<float>>{1}.run();
    rank2<double>{2}.run();
    rank2<std::complex<double>>{3}.run();
#endif
}

}  // namespace

MC_MAIN(run)
