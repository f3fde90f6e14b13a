// MC-TITLE: One-shot convolution equals the convolution sum for all sizes
// MC-TECH: all pairs of operand sizes, all pairs of basis vectors for small sizes, all operand words over {-1,0,1} for tiny sizes, all reuse histories of a convolver object, compared with the convolution sum
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Sizes 1..24 x 1..24 dense (thorough 1..70) and 63..65,127..129 against 1..4; all basis pairs up to 9 x 9 (thorough 14); all words over {-1,0,1} up to 3^6 per pair total; both operand orders; contiguous and strided operands and outputs; operands that share one buffer (equal, shorter, shifted and strided views of up to 12 samples); empty operands (FFT); reuse words of length 4 over 4 operand pairs; long operands 511..70001 against 1..300 and 1000..1501 squared; float, double, std::complex (direct form); operands and results of mixed precision, integers (direct form) up to 20 x 20. The dense case is also run with signal and filter scaled by powers of two (list `amplitudes` in harness/convcommon.hpp).
#include "convcommon.hpp"
#include "indexed.hpp"

using namespace cc;

namespace {

template<typename F>
struct explorer
{
    long id;

    template<typename Out>
    void compare(char const* what, Out const& out, rvec const& a, rvec const& b, real tol)
    {
        auto const ref = convolve(a, b);
        mc::require(out.size() == ref.size(), "%s %zux%zu: %zu results", what, a.size(), b.size(), out.size());
        for (std::size_t i = 0; i < ref.size(); ++i) {
            if (dist(out[i], ref[i]) > tol) {
                mc::fail("%s %zux%zu: result %zu is %Lg, expected %Lg", what, a.size(), b.size(), i, (real)out[i], ref[i]);
            }
        }
    }
    template<typename M>
    static auto values(M const& m) -> std::vector<F>
    {
        std::vector<F> r;
        for (std::size_t i = 0; i < m.extent(0); ++i) {
            r.push_back(m(i));
        }
        return r;
    }
    static auto fillb(rvec const& x, std::size_t stride) -> buffer<F>
    {
        buffer<F> b{x.size(), stride};
        for (std::size_t i = 0; i < x.size(); ++i) {
            b.at(i) = static_cast<F>(x[i]);
        }
        return b;
    }

    void pair(rvec const& a, rvec const& b, bool views)
    {
        auto const tol  = tolerance<F>(a, b, a.size() + b.size());
        auto const tolD = eps<F>() * real(2 * std::min(a.size(), b.size()) + 4) * (l2(a) * l2(b) + 1e-30L);
        auto A = fillb(a, 1), B = fillb(b, 1);
        auto const A0 = A.mem, B0 = B.mem;
        auto d = values(nc::direct_convolve(A.cflat(), B.cflat()));
        compare("direct_convolve", d, a, b, tolD);
        auto f = values(nc::fft_convolve(A.cflat(), B.cflat()));
        compare("fft_convolve", f, a, b, tol);
        mc::require(A.mem == A0 && B.mem == B0, "operands of %zux%zu changed", a.size(), b.size());
        mc::transition(2);
        if (views) {
            auto As = fillb(a, 3), Bs = fillb(b, 2);
            auto const As0 = As.mem, Bs0 = Bs.mem;
            buffer<F> o{a.size() + b.size() - 1, 2}, o2{a.size() + b.size() - 1, 3}, o3{a.size() + b.size() - 1};
            nc::direct_convolve(As.cstrided(), Bs.cstrided(), o.strided());
            auto cv = nc::fft_convolver<F>{a.size(), b.size()};
            mc::require(cv.signal_size() == a.size() && cv.patch_size() == b.size() && cv.output_size() == a.size() + b.size() - 1, "fft_convolver{%zu,%zu} reports %zu %zu %zu", a.size(), b.size(),
                        std::size_t(cv.signal_size()), std::size_t(cv.patch_size()), std::size_t(cv.output_size()));
            cv(As.cstrided(), Bs.cstrided(), o2.strided());
            nc::direct_convolve(A.cflat(), Bs.cstrided(), o3.flat());
            buffer<F> o4{o3.n}, o5{o3.n, 2};
            cv(A.cflat(), Bs.cstrided(), o4.flat());
            cv(As.cstrided(), B.cflat(), o5.strided());
            mc::transition(5);
            std::vector<F> v, v2, v3, v4, v5;
            for (std::size_t i = 0; i < o.n; ++i) {
                v.push_back(o.at(i));
                v2.push_back(o2.at(i));
                v3.push_back(o3.at(i));
                v4.push_back(o4.at(i));
                v5.push_back(o5.at(i));
            }
            compare("direct_convolve (strided)", v, a, b, tolD);
            compare("fft_convolver (strided)", v2, a, b, tol);
            compare("direct_convolve (mixed)", v3, a, b, tolD);
            compare("fft_convolver (mixed)", v4, a, b, tol);
            compare("fft_convolver (mixed)", v5, a, b, tol);
            o.check_guards("direct_convolve output");
            o2.check_guards("fft_convolver output");
            o3.check_guards("direct_convolve output");
            o4.check_guards("fft_convolver output");
            o5.check_guards("fft_convolver output");
            mc::require(As.mem == As0 && Bs.mem == Bs0, "strided operands of %zux%zu changed", a.size(), b.size());
        }
        mc::outcome(hash_values(d));
        mc::states(1);
        mc::trace();
    }

    void complex_pair(std::size_t n, std::size_t m)
    {
        using C = std::complex<F>;
        auto val = [](std::size_t i, std::size_t s) { return cplx{real(long((i * 5 + s) % 11) - 5) / 4, real(long((i * 3 + s) % 7) - 3) / 4}; };
        buffer<C> a{n}, b{m, 2}, o{n + m - 1};
        vec ref(n + m - 1, cplx{});
        for (std::size_t i = 0; i < n; ++i) {
            a.at(i) = mk<C>(val(i, 1));
        }
        for (std::size_t i = 0; i < m; ++i) {
            b.at(i) = mk<C>(val(i, 4));
        }
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = 0; j < m; ++j) {
                ref[i + j] += val(i, 1) * val(j, 4);
            }
        }
        nc::direct_convolve(a.cflat(), b.cstrided(), o.flat());
        o.check_guards("complex direct_convolve");
        for (std::size_t i = 0; i < ref.size(); ++i) {
            mc::require(dist(lift(o.at(i)), ref[i]) <= eps<F>() * real(16 * (std::min(n, m) + 2)), "complex direct_convolve %zux%zu: result %zu is (%Lg,%Lg), expected (%Lg,%Lg)", n, m, i, (real)o.at(i).real(), (real)o.at(i).imag(),
                        ref[i].real(), ref[i].imag());
        }
        mc::transition();
        mc::trace();
        mc::states(1);
    }

    void run()
    {
        auto const big = std::size_t(mc::thorough() ? 70 : 24);
        for (std::size_t n = 1; n <= big; ++n) {
            mc::check("dense", {id, long(n)}, [&] {
                for (std::size_t m = 1; m <= big; ++m) {
                    pair(dense(n, 1), dense(m, 4), true);
                    complex_pair(n, m);
                    for (auto [ex, eh] : amplitudes) {
                        pair(scaled(dense(n, 1), ex), scaled(dense(m, 4), eh), false);
                    }
                }
                mc::sample("dense %zu x 1..%zu", n, big);
            });
        }
        for (std::size_t n : {63, 64, 65, 127, 128, 129, 255, 256, 257}) {
            mc::check("long", {id, long(n)}, [&] {
                for (std::size_t m : {std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(4), n - 1, n, n + 1}) {
                    pair(dense(n, 1), dense(m, 4), m < 3);
                    pair(dense(m, 1), dense(n, 4), m < 3);
                }
            });
        }
        for (std::size_t n : {511, 512, 513, 1000, 1025, 2049, 4097, 8193, 16385, 32769, 65537, 70001}) {
            for (std::size_t m : {1, 2, 17, 256, 300}) {
                if (n * m > 3'000'000 && !mc::thorough()) {
                    continue;
                }
                mc::check("large", {id, long(n), long(m)}, [&] {
                    pair(dense(n, 1), dense(m, 4), m == 17);
                    pair(dense(m, 1), dense(n, 4), m == 17);
                    mc::sample("dense %zu x %zu", n, m);
                });
            }
        }
        for (std::size_t n : {1000, 1500}) {
            mc::check("large-square", {id, long(n)}, [&] {
                for (std::size_t m : {n - 1, n, n + 1}) {
                    pair(dense(n, 1), dense(m, 4), m == n);
                }
            });
        }
        // reuse at sizes where every internal buffer is larger than any small-buffer shortcut
        for (std::size_t n : {100, 257, 1000}) {
            for (std::size_t m : {1, 31, 300}) {
                mc::check("reuse-large", {id, long(n), long(m)}, [&] {
                    auto cv = nc::fft_convolver<F>{n, m};
                    for (int t = 0; t < 6; ++t) {
                        auto const a = t == 2 ? rvec(n, 0.0L) : t == 3 ? basis(n, n - 1) : dense(n, t + 1);
                        auto const b = t == 4 ? basis(m, m - 1) : t == 5 ? rvec(m, 0.0L) : dense(m, t + 5);
                        auto A = fillb(a, 1), B = fillb(b, 1);
                        buffer<F> o{n + m - 1};
                        cv(A.cflat(), B.cflat(), o.flat());
                        o.check_guards("fft_convolver output");
                        std::vector<F> v;
                        for (std::size_t i = 0; i < o.n; ++i) {
                            v.push_back(o.at(i));
                        }
                        compare("reused fft_convolver", v, a, b, tolerance<F>(a, b, n + m));
                        mc::transition();
                        mc::states(1);
                    }
                    mc::trace();
                });
            }
        }
        auto const bmax = std::size_t(mc::thorough() ? 14 : 9);
        for (std::size_t n = 1; n <= bmax; ++n) {
            for (std::size_t m = 1; m <= bmax; ++m) {
                mc::check("basis", {id, long(n), long(m)}, [&] {
                    for (std::size_t i = 0; i < n; ++i) {
                        for (std::size_t j = 0; j < m; ++j) {
                            pair(basis(n, i), basis(m, j), false);
                        }
                    }
                });
            }
        }
        auto const tot = std::size_t(mc::thorough() ? 8 : 6);
        for (std::size_t n = 1; n < tot; ++n) {
            for (std::size_t m = 1; n + m <= tot; ++m) {
                mc::check("words", {id, long(n), long(m)}, [&] {
                    std::size_t total = 1;
                    for (std::size_t i = 0; i < n + m; ++i) {
                        total *= 3;
                    }
                    for (std::size_t w = 0; w < total; ++w) {
                        rvec a(n), b(m);
                        auto r = w;
                        for (std::size_t i = 0; i < n + m; ++i, r /= 3) {
                            (i < n ? a[i] : b[i - n]) = real(long(r % 3) - 1);
                        }
                        pair(a, b, false);
                    }
                });
            }
        }
        // both operands in one buffer: the same view twice, a part of it, two views of different stride, overlapping views
        for (std::size_t n = 1; n <= 12; ++n) {
            mc::check("shared", {id, long(n)}, [&] {
                auto const a = dense(2 * n + 3, 2);
                auto A       = fillb(a, 1);
                auto const A0 = A.mem;
                for (std::size_t off = 0; off <= n; ++off) {
                    for (std::size_t m = 1; m <= n; ++m) {
                        for (std::size_t st : {1, 2}) {
                            using span  = decltype(A.cflat());
                            using sspan = decltype(A.cstrided());
                            auto const v1 = span{A.ptr(), model::ext1{n}};
                            auto const v2 = sspan{A.ptr() + off, typename sspan::mapping_type{model::ext1{m}, std::array<std::size_t, 1>{st}}};
                            auto const v3 = span{A.ptr() + off, model::ext1{m}};
                            if (off + (m - 1) * st >= a.size()) {
                                continue;
                            }
                            rvec x(a.begin(), a.begin() + long(n)), z, z1;
                            for (std::size_t i = 0; i < m; ++i) {
                                z.push_back(a[off + i * st]);
                                z1.push_back(a[off + i]);
                            }
                            auto const tol  = tolerance<F>(x, z, n + m);
                            auto const tolD = eps<F>() * real(2 * std::min(n, m) + 4) * (l2(x) * l2(z) + 1e-30L);
                            compare("fft_convolve of one buffer", values(nc::fft_convolve(v1, v2)), x, z, tol);
                            compare("fft_convolve of one buffer", values(nc::fft_convolve(v2, v1)), z, x, tol);
                            compare("direct_convolve of one buffer", values(nc::direct_convolve(v1, v2)), x, z, tolD);
                            compare("direct_convolve of one buffer", values(nc::direct_convolve(v2, v1)), z, x, tolD);
                            if (st == 1) {
                                compare("fft_convolve of one buffer", values(nc::fft_convolve(v1, v3)), x, z1, tol);
                                compare("fft_convolve of one buffer", values(nc::fft_convolve(v3, v1)), z1, x, tol);
                                compare("direct_convolve of one buffer", values(nc::direct_convolve(v1, v3)), x, z1, tolD);
                            }
                            mc::transition(7);
                            mc::states(1);
                            mc::trace();
                        }
                    }
                }
                mc::require(A.mem == A0, "shared operands changed");
            });
        }
#ifndef MC_MINIMAL
        // operands and results of another precision than that of the convolver
        for (std::size_t n = 1; n <= 20; ++n) {
            mc::check("mixed-precision", {id, long(n)}, [&] {
                using G = std::conditional_t<std::same_as<F, float>, double, float>;
                for (std::size_t m = 1; m <= 20; ++m) {
                    auto const a = dense(n, 1), b = dense(m, 4);
                    auto A = fillb(a, 1), B = fillb(b, 1);
                    std::vector<G> GA(a.begin(), a.end()), GB(b.begin(), b.end()), o(n + m - 1);
                    auto const ga   = indexed::flat<std::size_t>(static_cast<G const*>(GA.data()), n);
                    auto const gb   = indexed::flat<std::size_t>(static_cast<G const*>(GB.data()), m);
                    auto const tol  = tolerance<float>(a, b, n + m);
                    auto const tolD = eps<float>() * real(2 * std::min(n, m) + 4) * (l2(a) * l2(b) + 1e-30L);
                    compare("fft_convolve of mixed precision", values(nc::fft_convolve(A.cflat(), gb)), a, b, tol);
                    auto cv = nc::fft_convolver<F>{n, m};
                    cv(ga, gb, indexed::flat<std::size_t>(o.data(), o.size()));
                    compare("fft_convolver, all of another precision", o, a, b, tol);
                    cv(A.cflat(), gb, indexed::flat<std::size_t>(o.data(), o.size()));
                    compare("fft_convolver, filter and result of another precision", o, a, b, tol);
                    cv(ga, B.cflat(), indexed::flat<std::size_t>(o.data(), o.size()));
                    compare("fft_convolver, signal and result of another precision", o, a, b, tol);
                    nc::direct_convolve(A.cflat(), B.cflat(), indexed::flat<std::size_t>(o.data(), o.size()));
                    compare("direct_convolve, result of another precision", o, a, b, tolD);
                    std::vector<int> ia(n), ib(m), io(n + m - 1);
                    for (std::size_t i = 0; i < n; ++i) {
                        ia[i] = int(i * 7 % 11) - 5;
                    }
                    for (std::size_t i = 0; i < m; ++i) {
                        ib[i] = int(i * 5 % 13) - 6;
                    }
                    nc::direct_convolve(indexed::flat<std::size_t>(static_cast<int const*>(ia.data()), n), indexed::flat<std::size_t>(static_cast<int const*>(ib.data()), m), indexed::flat<std::size_t>(io.data(), io.size()));
                    compare("direct_convolve of integers", io, rvec(ia.begin(), ia.end()), rvec(ib.begin(), ib.end()), 0);
                    mc::transition(6);
                    mc::states(6);
                    mc::trace();
                }
            });
        }
#endif
        mc::check("empty", {id}, [&] {
            for (std::size_t n = 0; n <= 9; ++n) {
                auto A = fillb(dense(n, 1), 1), E = fillb({}, 1);
                mc::require(nc::fft_convolve(A.cflat(), E.cflat()).extent(0) == 0, "fft_convolve of %zu samples with nothing is not empty", n);
                mc::require(nc::fft_convolve(E.cflat(), A.cflat()).extent(0) == 0, "fft_convolve of nothing with %zu samples is not empty", n);
                mc::transition(2);
                mc::states(2);
                mc::trace(2);
            }
        });
        // reuse: every word of length 4 over four operand pairs gives what a single use gives
        for (std::size_t n : {1, 2, 3, 4, 5, 8, 9}) {
            for (std::size_t m : {1, 2, 3, 5, 8}) {
                mc::check("reuse", {id, long(n), long(m)}, [&] {
                    for (int w = 0; w < 256; ++w) {
                        auto cv = nc::fft_convolver<F>{n, m};
                        // the same buffers hold the operands of every use
                        auto A = fillb(rvec(n, 1.0L), 1), B = fillb(rvec(m, 1.0L), 1);
                        buffer<F> o{n + m - 1};
                        for (int t = 0; t < 4; ++t) {
                            auto const l = (w >> (2 * t)) & 3;
                            auto const a = l == 3 ? rvec(n, 0.0L) : dense(n, l + 1);
                            auto const b = l == 2 ? basis(m, m - 1) : dense(m, l + 5);
                            for (std::size_t i = 0; i < n; ++i) {
                                A.at(i) = static_cast<F>(a[i]);
                            }
                            for (std::size_t i = 0; i < m; ++i) {
                                B.at(i) = static_cast<F>(b[i]);
                            }
                            cv(A.cflat(), B.cflat(), o.flat());
                            o.check_guards("fft_convolver output");
                            std::vector<F> v;
                            for (std::size_t i = 0; i < o.n; ++i) {
                                v.push_back(o.at(i));
                            }
                            compare("reused fft_convolver", v, a, b, tolerance<F>(a, b, n + m));
                            mc::transition();
                        }
                        mc::states(4);
                        mc::trace();
                    }
                });
            }
        }
    }
};

void run()
{
#if MC_PART == 0
    explorer<float>{0}.run();
#else
    explorer<double>{1}.run();
#endif
}

}  // namespace

MC_MAIN(run)
