// MC-TITLE: Real FFT and its inverse match the DFT of the real signal
// MC-TECH: every order x type x buffer size x layout, all real basis vectors, all half-spectrum basis vectors and small-alphabet words, oracle = DFT sum
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: avx512 v3rel
// MC-BOUNDS: Quick: orders 8..17 with 5 closed-form inputs, both directions; orders 0..7 with every basis vector and every half-spectrum basis vector, orders 8..10 sparse, all words over {0,1,-1} up to n=4 and {0,1} up to n=8; exact-size, oversized, strided and mixed buffers; float/double, both complex types; the experimental packed plan, forward and inverse, flat and strided, orders 1..7 with every basis vector, 8..10 sparse, 11..14 closed-form; packed-spectrum split for every length 1..33 with all pairs of basis vectors, and 12 lengths from 100 to 70001. Thorough: orders to 9 full and 13 sparse, split lengths to 64. Extents counted in seven integer types. The dense vector is also run scaled by 2^-90, 2^-45, 2^45 and 2^90. Every word of four directions on a fresh plan (sizes to 128).
#include "indexed.hpp"
#include "fftcommon.hpp"
#include <neo/fft/experimental/rfft.hpp>

using namespace fc;
namespace nf = neo::fft;

namespace {

template<typename F, typename C>
void forward(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 7;
    std::size_t const last = mc::thorough() ? 13 : 10;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n     = std::size_t(1) << order;
        auto const coefs = n / 2 + 1;
        for (int variant = 0; variant < 6; ++variant) {
            mc::check("rfft", {type_id, static_cast<long>(order), variant}, [&] {
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                mc::require(plan.order() == order && plan.size() == n, "order()/size() wrong for order %zu", order);
                real_inputs(n, order <= full, mc::thorough() ? 70000 : 1000, [&](rvec const& x, std::string const& label) {
                    // variants: 0 exact flat, 1 oversized flat, 2 strided exact, 3 strided oversized, 4 from strided to flat, 5 from flat to strided (oversized)
                    auto const st   = variant == 2 || variant == 3 || variant == 4 ? std::size_t(2) : std::size_t(1);  // input
                    auto const ost  = variant == 2 || variant == 3 || variant == 5 ? std::size_t(2) : std::size_t(1);  // output
                    auto const size = variant % 2 == 0 ? coefs : std::max(n, coefs) + 3;
                    buffer<F> in{n, st};
                    buffer<C> out{size, ost};
                    for (std::size_t i = 0; i < n; ++i) {
                        in.at(i) = static_cast<F>(x[i]);
                    }
                    for (std::size_t i = 0; i < size; ++i) {
                        out.at(i) = C{F(77), F(-99)};
                    }
                    auto const before = in.mem;
                    if (variant < 2) {
                        nf::rfft(plan, in.cflat(), out.flat());
                    } else if (variant == 4) {
                        nf::rfft(plan, in.cstrided(), out.flat());
                    } else if (variant == 5) {
                        nf::rfft(plan, in.cflat(), out.strided());
                    } else {
                        nf::rfft(plan, in.cstrided(), out.strided());
                    }
                    mc::transition();
                    mc::require(before == in.mem, "rfft modified its input");
                    out.check_guards("rfft output");
                    vec cx(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        cx[i] = x[i];
                    }
                    auto want      = dft(cx, -1);
                    auto const tol = tolerance<C>(cx, order);
                    std::vector<C> got(coefs);
                    for (std::size_t i = 0; i < coefs; ++i) {
                        got[i] = out.at(i);
                    }
                    want.resize(coefs);
                    compare(got, want, tol, mc::format("rfft(variant %d, n=%zu)", variant, n).c_str(), label, -1);
                    for (std::size_t i = coefs; i < size; ++i) {
                        mc::require(out.at(i).real() == F(77) && out.at(i).imag() == F(-99), "rfft n=%zu wrote beyond the %zu coefficients (index %zu)", n, coefs, i);
                    }
                    mc::state(mc::hasher{}.add(1).add(type_id).add(n).add(variant).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::trace();
                });
                mc::sample("rfft type=%ld n=%zu variant=%d", type_id, n, variant);
            });
        }
    }
}

template<typename F, typename C>
void backward(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 7;
    std::size_t const last = mc::thorough() ? 13 : 10;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n     = std::size_t(1) << order;
        auto const coefs = n / 2 + 1;
        for (int variant = 0; variant < 6; ++variant) {
            mc::check("irfft", {type_id, static_cast<long>(order), variant}, [&] {
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                auto one  = [&](vec const& half, std::string const& label) {
                    auto const st   = variant == 2 || variant == 3 || variant == 4 ? std::size_t(2) : std::size_t(1);  // input
                    auto const ost  = variant == 2 || variant == 3 || variant == 5 ? std::size_t(2) : std::size_t(1);  // output
                    auto const size = variant % 2 == 0 ? coefs : std::max(coefs, n);
                    buffer<C> in{size, st};
                    buffer<F> out{n, ost};
                    for (std::size_t i = 0; i < size; ++i) {
                        in.at(i) = i < coefs ? mk<C>(half[i]) : C{F(5), F(3)};  // redundant coefficients must not matter
                    }
                    auto const before = in.mem;
                    if (variant < 2) {
                        nf::irfft(plan, in.cflat(), out.flat());
                    } else if (variant == 4) {
                        nf::irfft(plan, in.cstrided(), out.flat());
                    } else if (variant == 5) {
                        nf::irfft(plan, in.cflat(), out.strided());
                    } else {
                        nf::irfft(plan, in.cstrided(), out.strided());
                    }
                    mc::transition();
                    mc::require(std::memcmp((void const*)before.data(), (void const*)in.mem.data(), sizeof(C) * before.size()) == 0, "irfft modified its input");
                    out.check_guards("irfft output");
                    std::vector<F> got(n);
                    auto const tol = 2 * tolerance<C>(half, order);
                    for (std::size_t t = 0; t < n; ++t) {
                        got[t]    = out.at(t);
                        real want = half[0].real();
                        for (std::size_t k = 1; k < coefs; ++k) {
                            if (half[k] == cplx{}) {
                                continue;
                            }
                            auto const term = (half[k] * root(static_cast<long>(n), static_cast<long>((k * t) % n))).real();
                            want += 2 * k == n ? half[k].real() * (t % 2 == 0 ? 1.0L : -1.0L) : 2 * term;
                        }
                        mc::require(dist(want, got[t]) <= tol, "irfft variant %d n=%zu spectrum %s: sample %zu is %Lg, expected %Lg", variant, n, label.c_str(), t, (real)got[t], want);
                    }
                    mc::state(mc::hasher{}.add(2).add(type_id).add(n).add(variant).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::trace();
                };
                complex_inputs(coefs, order <= full, mc::thorough() ? 70000 : 1000, one);
                // the spectrum of every real basis vector comes back as n times the vector
                if (order <= full) {
                    for (std::size_t j = 0; j < n; ++j) {
                        vec half(coefs);
                        for (std::size_t k = 0; k < coefs; ++k) {
                            half[k] = root(static_cast<long>(n), -static_cast<long>((j * k) % n));
                        }
                        one(half, mc::format("spectrum of e%zu", j));
                    }
                }
            });
        }
    }
}

// every word of four directions on a plan that has not been used before
template<typename F, typename C>
void directions(long type_id)
{
    for (std::size_t order = 0; order <= 7; ++order) {
        auto const n     = std::size_t(1) << order;
        auto const coefs = n / 2 + 1;
        mc::check("directions", {type_id, static_cast<long>(order)}, [&] {
            direction_words([&](int w, auto sign) {
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                buffer<F> x{n};
                buffer<C> s{coefs};
                for (int t = 0; t < 4; ++t) {
                    auto z = dense_step(n, t);
                    for (auto& v : z) {
                        v = cplx{v.real(), 0};
                    }
                    auto const Z   = dft(z, -1);
                    auto const tol = tolerance<C>(z, order);
                    for (std::size_t i = 0; i < n; ++i) {
                        x.at(i) = sign(t) < 0 ? static_cast<F>(z[i].real()) : F(99);
                    }
                    for (std::size_t k = 0; k < coefs; ++k) {
                        s.at(k) = sign(t) < 0 ? C{F(99), F(-99)} : mk<C>(Z[k]);
                    }
                    if (sign(t) < 0) {
                        nf::rfft(plan, x.cflat(), s.flat());
                        for (std::size_t k = 0; k < coefs; ++k) {
                            mc::require(dist(lift(s.at(k)), Z[k]) <= tol, "rfft n=%zu, call %d of directions %x: bin %zu", n, t, unsigned(w), k);
                        }
                    } else {
                        nf::irfft(plan, s.cflat(), x.flat());
                        for (std::size_t i = 0; i < n; ++i) {
                            mc::require(dist(real(x.at(i)), z[i].real() * real(n)) <= 2 * real(n) * tol, "irfft n=%zu, call %d of directions %x: sample %zu", n, t, unsigned(w), i);
                        }
                    }
                    mc::transition();
                }
                mc::states(4);
                mc::trace();
            });
        });
    }
}

template<typename F, typename C>
void deinterleave(long type_id)
{
    // long spectra, given directly
    for (std::size_t n : {100, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70001}) {
        mc::check("deinterleave_long", {type_id, static_cast<long>(n)}, [&] {
            auto const coefs = n / 2 + 1;
            auto value       = [n](std::size_t k, std::size_t salt) {
                auto const m = std::min(k, n - k);
                auto const v = cplx{real(long((m * 7 + salt) % 23) - 11) / 4, real(long((m * 5 + salt) % 19) - 9) / 4};
                if (k == 0 || 2 * k == n) {
                    return cplx{v.real(), 0};
                }
                return k < n - k ? v : std::conj(v);
            };
            for (int strided = 0; strided < 2; ++strided) {
                buffer<C> in{n, strided ? std::size_t(2) : std::size_t(1)}, ox{coefs, 2}, oy{coefs};
                for (std::size_t k = 0; k < n; ++k) {
                    in.at(k) = mk<C>(value(k, 3) + cplx{0, 1} * value(k, 8));
                }
                if (strided) {
                    nf::rfft_deinterleave(in.cstrided(), ox.strided(), oy.flat());
                } else {
                    nf::rfft_deinterleave(in.cflat(), ox.strided(), oy.flat());
                }
                mc::transition();
                ox.check_guards("deinterleave x");
                oy.check_guards("deinterleave y");
                for (std::size_t k = 0; k < coefs; ++k) {
                    mc::require(dist(lift(ox.at(k)), value(k, 3)) <= 64 * eps<F>(), "deinterleave n=%zu: first spectrum, bin %zu", n, k);
                    mc::require(dist(lift(oy.at(k)), value(k, 8)) <= 64 * eps<F>(), "deinterleave n=%zu: second spectrum, bin %zu", n, k);
                }
                mc::states(1);
                mc::trace();
            }
        });
    }
    for (std::size_t n = 1; n <= (mc::thorough() ? 64U : 33U); ++n) {
        mc::check("deinterleave", {type_id, static_cast<long>(n)}, [&] {
            auto const coefs = n / 2 + 1;
            for (std::size_t a = 0; a <= n; ++a) {
                for (std::size_t b = 0; b <= n; ++b) {
                    // x = e_a (or dense for a == n), y = 2 e_b (or dense)
                    vec x(n), y(n), z(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        x[i] = a == n ? real((i * 5 + 1) % 7) - 3 : real(i == a);
                        y[i] = b == n ? real((i * 3 + 2) % 5) - 2 : 2 * real(i == b);
                        z[i] = x[i] + cplx{0, 1} * y[i];
                    }
                    auto const fz = dft(z, -1), fx = dft(x, -1), fy = dft(y, -1);
                    buffer<C> in{n}, ox{coefs}, oy{coefs + 2, 2};
                    for (std::size_t i = 0; i < n; ++i) {
                        in.at(i) = mk<C>(fz[i]);
                    }
                    for (std::size_t i = 0; i < coefs + 2; ++i) {
                        oy.at(i) = C{F(77), F(-99)};
                    }
                    nf::rfft_deinterleave(in.cflat(), ox.flat(), oy.strided());
                    mc::transition();
                    ox.check_guards("deinterleave x");
                    oy.check_guards("deinterleave y");
                    auto const tol = 16 * eps<F>() * (l1(x) + l1(y) + 1);
                    for (std::size_t k = 0; k < coefs; ++k) {
                        mc::require(dist(lift(ox.at(k)), fx[k]) <= tol, "deinterleave n=%zu a=%zu b=%zu: first spectrum, bin %zu", n, a, b, k);
                        mc::require(dist(lift(oy.at(k)), fy[k]) <= tol, "deinterleave n=%zu a=%zu b=%zu: second spectrum, bin %zu", n, a, b, k);
                    }
                    mc::require(oy.at(coefs).real() == F(77) && oy.at(coefs + 1).imag() == F(-99), "deinterleave n=%zu wrote beyond n/2+1 coefficients", n);
                    mc::states(1);
                    mc::trace();
                }
            }
        });
    }
}

// long transforms: real inputs with known spectra, forwards and backwards
template<typename F, typename C>
void large(long type_id)
{
    for (std::size_t order = 8; order <= (mc::thorough() ? 20U : 17U); ++order) {
        auto const n     = std::size_t(1) << order;
        auto const coefs = n / 2 + 1;
        for (int variant = 0; variant < 2; ++variant) {
            mc::check("large", {type_id, static_cast<long>(order), variant}, [&] {
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                large_inputs(n, -1, [&](vec const& z, vec const& Z, std::string const& label) {
                    // the real part of the complex input
                    auto const size = variant == 0 ? coefs : n;
                    buffer<F> x{n}, y{n};
                    buffer<C> s{size};
                    rvec in(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        in[i]   = z[i].real();
                        x.at(i) = static_cast<F>(in[i]);
                    }
                    auto const tol = eps<F>() * static_cast<real>(16 + 6 * order) * l1(z);
                    nf::rfft(plan, x.cflat(), s.flat());
                    s.check_guards("rfft");
                    for (std::size_t k = 0; k < coefs; ++k) {
                        auto const want = (Z[k] + std::conj(Z[(n - k) % n])) / real(2);
                        mc::require(dist(lift(s.at(k)), want) <= tol, "rfft n=%zu Re(%s): bin %zu", n, label.c_str(), k);
                        s.at(k) = mk<C>(want);
                    }
                    nf::irfft(plan, s.cflat(), y.flat());
                    y.check_guards("irfft");
                    auto const btol = static_cast<real>(n) * eps<F>() * static_cast<real>(16 + 6 * order) * 4;
                    for (std::size_t i = 0; i < n; ++i) {
                        mc::require(dist(real(y.at(i)), in[i] * static_cast<real>(n)) <= btol, "irfft n=%zu spectrum of Re(%s): sample %zu", n, label.c_str(), i);
                    }
                    mc::transition(2);
                    mc::states(1);
                    mc::trace(2);
                });
            });
        }
    }
}

// experimental in-place transform: [DC, Nyquist, re 1, im 1, ...], the inverse scaled by n / 2
template<typename F>
void packed(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 7;
    std::size_t const last = mc::thorough() ? 18 : 14;
    for (std::size_t order = 1; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        for (int strided = 0; strided < 2; ++strided) {
            mc::check("packed", {type_id, static_cast<long>(order), strided}, [&] {
                auto plan = nf::experimental::rfft_plan<F>{nf::from_order, order};
                mc::require(plan.order() == order && plan.size() == n, "order()/size() wrong for order %zu", order);
                auto const accuracy = eps<F>() * (real(16 + 6 * order) + 2 * std::sqrt(real(n)));
                auto one            = [&](rvec const& x, auto spectrum, std::string const& label) {
                    buffer<F> a{n, strided ? std::size_t(3) : std::size_t(1)};
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(i) = static_cast<F>(x[i]);
                    }
                    auto go = [&](nf::direction d) {
                        if (strided) {
                            plan(a.strided(), d);
                        } else {
                            plan(a.flat(), d);
                        }
                        mc::transition();
                        a.check_guards("packed transform");
                    };
                    go(nf::direction::forward);
                    real sum = 0;
                    for (auto v : x) {
                        sum += std::abs(v);
                    }
                    for (std::size_t k = 0; k <= n / 2; ++k) {
                        auto const want = spectrum(k);
                        auto const got  = k == 0       ? cplx(real(a.at(0)), 0)
                                        : k == n / 2 ? cplx(real(a.at(1)), 0)
                                                     : cplx(real(a.at(2 * k)), real(a.at(2 * k + 1)));
                        mc::require(dist(got, want) <= accuracy * (sum + 1e-30L), "packed transform n=%zu of %s: bin %zu is (%Lg,%Lg), the DFT gives (%Lg,%Lg)", n, label.c_str(), k,
                                    got.real(), got.imag(), want.real(), want.imag());
                        // continue with the exact spectrum
                        if (k == 0) {
                            a.at(0) = static_cast<F>(want.real());
                        } else if (k == n / 2) {
                            a.at(1) = static_cast<F>(want.real());
                        } else {
                            a.at(2 * k)     = static_cast<F>(want.real());
                            a.at(2 * k + 1) = static_cast<F>(want.imag());
                        }
                    }
                    go(nf::direction::backward);
                    auto const btol = accuracy * real(n) * (sum + 1e-30L);
                    for (std::size_t i = 0; i < n; ++i) {
                        mc::require(dist(real(a.at(i)), x[i] * real(n) / 2) <= btol, "packed inverse n=%zu of the spectrum of %s: sample %zu is %g instead of %Lg", n, label.c_str(), i,
                                    double(a.at(i)), x[i] * real(n) / 2);
                    }
                    mc::state(mc::hasher{}.add(79).add(type_id).add(n).add(strided).bytes(label.data(), label.size()).h);
                    mc::trace(2);
                };
                if (order <= 10) {
                    real_inputs(n, order <= full, mc::thorough() ? 70000 : 1000, [&](rvec const& x, std::string const& label) {
                        vec cx(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            cx[i] = x[i];
                        }
                        auto const want = dft(cx, -1);
                        one(x, [&](std::size_t k) { return want[k]; }, label);
                    });
                } else {
                    large_inputs(n, -1, [&](vec const& z, vec const& Z, std::string const& label) {
                        rvec x(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            x[i] = z[i].real();
                        }
                        one(x, [&](std::size_t k) { return (Z[k] + std::conj(Z[(n - k) % n])) / real(2); }, "Re(" + label + ")");
                    });
                }
            });
        }
    }
}

/// views whose extents are counted in other types
template<typename F, typename C>
void index_types(long type_id)
{
    indexed::for_types([&]<typename I>(long type, std::size_t most) {
        for (std::size_t order = 0; order <= 8 && (std::size_t(1) << order) <= most; ++order) {
            mc::check("indexed", {type_id, type, long(order)}, [&] {
                auto const n = std::size_t(1) << order, coefs = n / 2 + 1;
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                vec x(n);
                std::vector<F> a(n + 1, F(7)), back(n + 1, F(7));
                std::vector<C> o(coefs + 1, mk<C>(cplx{7, 7}));
                for (std::size_t i = 0; i < n; ++i) {
                    x[i] = real(long((i * 7 + 3) % 31) - 15) / 8;
                    a[i] = static_cast<F>(x[i].real());
                }
                nf::rfft(plan, indexed::flat<I>(a.data(), n), indexed::flat<I>(o.data(), coefs));
                auto const want = dft(x, -1);
                auto const tol  = tolerance<C>(x, order);
                for (std::size_t k = 0; k < coefs; ++k) {
                    mc::require(dist(lift(o[k]), want[k]) <= tol, "rfft n=%zu, extents counted in type %ld: bin %zu", n, type, k);
                }
                nf::irfft(plan, indexed::flat<I>(o.data(), coefs), indexed::flat<I>(back.data(), n));
                for (std::size_t i = 0; i < n; ++i) {
                    mc::require(dist(real(back[i]), x[i].real() * real(n)) <= 4 * tol * real(n), "irfft n=%zu, extents counted in type %ld: sample %zu", n, type, i);
                }
                mc::require(a[n] == F(7) && back[n] == F(7) && lift(o[coefs]) == cplx(7, 7), "a transform of %zu points wrote behind its view", n);
                mc::transition(2);
                mc::states(2);
                mc::trace(2);
            });
        }
    });
}

void run()
{
    index_types<float, std::complex<float>>(0);
    index_types<double, neo::scalar_complex<double>>(3);
    large<double, std::complex<double>>(1);
    large<float, std::complex<float>>(0);
    packed<float>(0);
    packed<double>(1);
    forward<float, std::complex<float>>(0);
    forward<double, std::complex<double>>(1);
    forward<float, neo::scalar_complex<float>>(2);
    forward<double, neo::scalar_complex<double>>(3);
    backward<float, std::complex<float>>(0);
    backward<double, std::complex<double>>(1);
    backward<float, neo::scalar_complex<float>>(2);
    backward<double, neo::scalar_complex<double>>(3);
    directions<float, std::complex<float>>(0);
    directions<double, std::complex<double>>(1);
    directions<float, neo::scalar_complex<float>>(2);
    directions<double, neo::scalar_complex<double>>(3);
    deinterleave<float, std::complex<float>>(0);
    deinterleave<double, std::complex<double>>(1);
    deinterleave<double, neo::scalar_complex<double>>(3);
}

}  // namespace

MC_MAIN(run)
