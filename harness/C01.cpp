// MC-TITLE: Power-of-two complex FFT plans compute the DFT
// MC-TECH: every plan x kernel x type x order x direction x layout, all basis vectors and all words over a small alphabet, oracle = DFT sum
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: neon avx512 sse41 v3rel
// MC-PARTS: 3
// MC-BOUNDS: Quick: orders 0..6 with every basis vector (times 1 and i), orders 7..9 with basis vectors of at most two set or cleared index bits, all words over {0,1,i,-1,-i} up to n=4 and {0,1} up to n=8, one dense vector per order; both directions; orders 10..17 with 4 weighted basis vectors and one dense vector whose spectrum is a closed form; 7 call variants (in place, out of place, every mix of contiguous and strided views); 8 plans x 4 complex types, the interleaved plan (flat and strided), plus kernels on xsimd batches. Thorough: all basis vectors to order 9, sparse to order 13, closed-form inputs to order 20. Extents counted in seven integer types. The dense vector is also run scaled by 2^-90, 2^-45, 2^45 and 2^90. Every word of four directions on a fresh plan (sizes to 128).
// MC-ASSUME: linearity in the sense that inputs are explored as basis vectors, small-alphabet words and one dense vector per size; larger orders than the bound are not run
#include "indexed.hpp"
#include "fftcommon.hpp"
#include <neo/fft/experimental/rfft.hpp>

#if defined(NEO_HAS_XSIMD)
    #include <neo/config/xsimd.hpp>
#endif

using namespace fc;
namespace nf = neo::fft;

namespace {

template<typename C>
using p_default = nf::fft_plan<C>;
template<typename C>
using p_v1 = nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v1>;
template<typename C>
using p_v2 = nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v2>;
template<typename C>
using p_v3 = nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v3>;
template<typename C>
using p_v4 = nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v4>;
template<typename C>
using p_dif2r = nf::c2c_stockham_dif2r_plan<C>;
template<typename C>
using p_dif2i = nf::c2c_stockham_dif2i_plan<C>;

template<typename C>
void all_plans(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 6;
    std::size_t const last = mc::thorough() ? 13 : 9;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n   = std::size_t(1) << order;
        auto const all = order <= full;
        auto const cap = std::uint64_t(mc::thorough() ? 70000 : 1000);
        auto run       = [&]<template<typename> class P>(char const* name, std::initializer_list<int> variants) {
            explore_plan<C, P<C>>(name, type_id, order, n, order, all, cap, variants);
        };
        run.template operator()<p_default>("fft_plan", {inplace_flat, inplace_strided, free_inplace, out_flat, out_strided, out_gather, out_scatter});
        run.template operator()<p_v1>("dit2_v1", {inplace_flat, inplace_strided});
        run.template operator()<p_v2>("dit2_v2", {inplace_flat, inplace_strided});
        run.template operator()<p_v3>("dit2_v3", {inplace_flat, inplace_strided});
        run.template operator()<p_v4>("dit2_v4", {inplace_flat, inplace_strided});
        run.template operator()<p_dif2r>("stockham_dif2r", {inplace_flat, inplace_strided, out_flat});
        run.template operator()<p_dif2i>("stockham_dif2i", {inplace_flat, inplace_strided, out_flat});
    }
}

// split real/imaginary plan
template<typename F>
void split_plan(long type_id)
{
    std::size_t const full = mc::thorough() ? 9 : 6;
    std::size_t const last = mc::thorough() ? 13 : 9;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        if (order <= 7) {
            mc::check("split_fft", {type_id, static_cast<long>(order), 100}, [&] {
                direction_words([&](int w, auto sign) {
                    auto plan = nf::split_fft_plan<F>{nf::from_order, order};
                    for (int t = 0; t < 4; ++t) {
                        auto const x = dense_step(n, t);
                        buffer<F> re{n}, im{n};
                        for (std::size_t i = 0; i < n; ++i) {
                            re.at(i) = static_cast<F>(x[i].real());
                            im.at(i) = static_cast<F>(x[i].imag());
                        }
                        plan(neo::split_complex{re.flat(), im.flat()}, dir_of(sign(t)));
                        mc::transition();
                        std::vector<std::complex<F>> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = {re.at(i), im.at(i)};
                        }
                        compare(got, dft(x, sign(t)), tolerance<std::complex<F>>(x, order), mc::format("split_fft, call %d of directions %x", t, unsigned(w)).c_str(), "dense", sign(t));
                    }
                    mc::states(4);
                    mc::trace();
                });
            });
        }
        for (int variant = 0; variant < 4; ++variant) {
            for (int sign : {-1, 1}) {
                mc::check("split_fft", {type_id, static_cast<long>(order), variant, sign}, [&] {
                    auto plan = nf::split_fft_plan<F>{nf::from_order, order};
                    mc::require(plan.order() == order && plan.size() == n, "order()/size() wrong for order %zu", order);
                    complex_inputs(n, order <= full, mc::thorough() ? 70000 : 1000, [&](vec const& x, std::string const& label) {
                        auto const st = variant % 2 == 0 ? std::size_t(1) : std::size_t(2);
                        buffer<F> re{n, st}, im{n, st}, ore{n, st}, oim{n, st};
                        for (std::size_t i = 0; i < n; ++i) {
                            re.at(i) = static_cast<F>(x[i].real());
                            im.at(i) = static_cast<F>(x[i].imag());
                        }
                        auto const re0 = re.mem;
                        auto const im0 = im.mem;
                        mc::transition();
                        switch (variant) {
                            case 0: plan(neo::split_complex{re.flat(), im.flat()}, dir_of(sign)); break;
                            case 1:
                                if (sign < 0) {
                                    nf::fft(plan, neo::split_complex{re.strided(), im.strided()});
                                } else {
                                    nf::ifft(plan, neo::split_complex{re.strided(), im.strided()});
                                }
                                break;
                            case 2:
                                if (sign < 0) {
                                    nf::fft(plan, neo::split_complex{re.flat(), im.flat()}, neo::split_complex{ore.flat(), oim.flat()});
                                } else {
                                    nf::ifft(plan, neo::split_complex{re.flat(), im.flat()}, neo::split_complex{ore.flat(), oim.flat()});
                                }
                                break;
                            default:
                                plan(neo::split_complex{re.cstrided(), im.cstrided()}, neo::split_complex{ore.strided(), oim.strided()}, dir_of(sign));
                                break;
                        }
                        auto& rr = variant < 2 ? re : ore;
                        auto& ri = variant < 2 ? im : oim;
                        if (variant >= 2) {
                            mc::require(re0 == re.mem && im0 == im.mem, "split transform modified its input");
                        }
                        rr.check_guards("split transform real part");
                        ri.check_guards("split transform imaginary part");
                        std::vector<std::complex<F>> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = {rr.at(i), ri.at(i)};
                        }
                        compare(got, dft(x, sign), tolerance<std::complex<F>>(x, order), "split_fft", label, sign);
                        mc::state(mc::hasher{}.add(77).add(type_id).add(n).add(variant).add(sign).bytes(label.data(), label.size()).h);
                        mc::outcome(hash_values(got));
                        mc::trace();
                    });
                });
            }
        }
    }
}

// the experimental plan over interleaved real and imaginary parts
template<typename F>
void interleaved_plan(long type_id)
{
    using C                = std::complex<F>;
    std::size_t const full = mc::thorough() ? 9 : 6;
    std::size_t const last = mc::thorough() ? 13 : 9;
    for (std::size_t order = 0; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        if (order <= 7) {
            mc::check("interleaved", {type_id, static_cast<long>(order), 100}, [&] {
                direction_words([&](int w, auto sign) {
                    auto plan = nf::experimental::c2c_dit2_plan<F>{nf::from_order, order};
                    for (int t = 0; t < 4; ++t) {
                        auto const x = dense_step(n, t);
                        buffer<F> a{2 * n};
                        for (std::size_t i = 0; i < n; ++i) {
                            a.at(2 * i)     = static_cast<F>(x[i].real());
                            a.at(2 * i + 1) = static_cast<F>(x[i].imag());
                        }
                        plan(a.flat(), dir_of(sign(t)));
                        mc::transition();
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = {a.at(2 * i), a.at(2 * i + 1)};
                        }
                        compare(got, dft(x, sign(t)), tolerance<C>(x, order), mc::format("interleaved plan, call %d of directions %x", t, unsigned(w)).c_str(), "dense", sign(t));
                    }
                    mc::states(4);
                    mc::trace();
                });
            });
        }
        for (int strided = 0; strided < 2; ++strided) {
            for (int sign : {-1, 1}) {
                mc::check("interleaved", {type_id, static_cast<long>(order), strided, sign}, [&] {
                    auto plan = nf::experimental::c2c_dit2_plan<F>{nf::from_order, order};
                    mc::require(plan.order() == order && plan.size() == n, "order()/size() wrong for order %zu", order);
                    complex_inputs(n, order <= full, mc::thorough() ? 70000 : 1000, [&](vec const& x, std::string const& label) {
                        buffer<F> a{2 * n, strided ? std::size_t(3) : std::size_t(1)};
                        for (std::size_t i = 0; i < n; ++i) {
                            a.at(2 * i)     = static_cast<F>(x[i].real());
                            a.at(2 * i + 1) = static_cast<F>(x[i].imag());
                        }
                        if (strided) {
                            plan(a.strided(), dir_of(sign));
                        } else {
                            plan(a.flat(), dir_of(sign));
                        }
                        mc::transition();
                        a.check_guards("interleaved transform");
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = {a.at(2 * i), a.at(2 * i + 1)};
                        }
                        compare(got, dft(x, sign), tolerance<C>(x, order), "interleaved plan", label, sign);
                        mc::state(mc::hasher{}.add(78).add(type_id).add(n).add(strided).add(sign).bytes(label.data(), label.size()).h);
                        mc::outcome(hash_values(got));
                        mc::trace();
                    });
                });
            }
        }
    }
    for (std::size_t order = 10; order <= (mc::thorough() ? 20U : 17U); ++order) {
        auto const n = std::size_t(1) << order;
        for (int sign : {-1, 1}) {
            mc::check("interleaved_large", {type_id, static_cast<long>(order), sign}, [&] {
                auto plan = nf::experimental::c2c_dit2_plan<F>{nf::from_order, order};
                large_inputs(n, sign, [&](vec const& x, vec const& want, std::string const& label) {
                    buffer<F> a{2 * n};
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(2 * i)     = static_cast<F>(x[i].real());
                        a.at(2 * i + 1) = static_cast<F>(x[i].imag());
                    }
                    plan(a.flat(), dir_of(sign));
                    mc::transition();
                    a.check_guards("interleaved transform");
                    std::vector<C> got(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        got[i] = {a.at(2 * i), a.at(2 * i + 1)};
                    }
                    compare(got, want, tolerance<C>(x, order), "interleaved plan", label, sign);
                    mc::states(1);
                    mc::trace();
                });
            });
        }
    }
}

// bit reversal permutation: table plan and free function, on complex, interleaved and split data
void bit_reversal()
{
    for (std::size_t order = 0; order <= (mc::thorough() ? 20U : 17U); ++order) {
        mc::check("bitrev", {static_cast<long>(order)}, [&] {
            auto const n = std::size_t(1) << order;
            auto rev     = [&](std::size_t i) {
                std::size_t r = 0;
                for (std::size_t b = 0; b < order; ++b) {
                    r |= ((i >> b) & 1U) << (order - 1 - b);
                }
                return r;
            };
            buffer<std::complex<float>> a{n}, b{n, 2};
            buffer<float> inter{2 * n}, re{n}, im{n, 2};
            for (std::size_t i = 0; i < n; ++i) {
                a.at(i) = b.at(i) = {float(i), -float(i)};
                inter.at(2 * i)   = float(i);
                inter.at(2 * i + 1) = -float(i);
                re.at(i)          = float(i);
                im.at(i)          = -float(i);
            }
            auto plan = nf::bitrevorder_plan{order};
            plan(a.flat());
            plan(b.strided());
            plan(inter.flat());
            plan(neo::split_complex{re.strided(), im.strided()});
            auto check = [&](char const* what) {
                for (std::size_t i = 0; i < n; ++i) {
                    auto const w = std::complex<float>{float(rev(i)), -float(rev(i))};
                    mc::require(a.at(i) == w, "%s: element %zu of %zu", what, i, n);
                    mc::require(b.at(i) == w, "%s strided: element %zu of %zu", what, i, n);
                }
                a.check_guards(what);
                b.check_guards(what);
            };
            check("bit reversal plan");
            for (std::size_t i = 0; i < n; ++i) {
                mc::require(inter.at(2 * i) == float(rev(i)) && inter.at(2 * i + 1) == -float(rev(i)), "bit reversal interleaved: %zu of %zu", i, n);
                mc::require(re.at(i) == float(rev(i)) && im.at(i) == -float(rev(i)), "bit reversal split: %zu of %zu", i, n);
                a.at(i) = b.at(i) = {float(i), -float(i)};
            }
            inter.check_guards("bit reversal interleaved");
            if (n > 1) {
                nf::bitrevorder(a.flat());
                nf::bitrevorder(b.strided());
                check("bitrevorder()");
            }
            mc::states(n);
            mc::transition(6);
            mc::trace(6);
        });
    }
}

// the default plan refuses orders beyond its maximum
void rejected_orders()
{
    for (long order = 0; order <= 70; ++order) {
        mc::check("max_order", {order}, [&] {
            using P = nf::fft_plan<std::complex<float>>;
            mc::require(P::max_size() == (std::size_t(1) << P::max_order()), "max_size");
            mc::states(1);
            mc::transition();
            mc::trace();
            if (static_cast<std::size_t>(order) <= P::max_order()) {
                return;  // sizes within the bound are covered by the transform scenarios
            }
            auto thrown = false;
            try {
                auto p = P{nf::from_order, static_cast<std::size_t>(order)};
                (void)p;
            } catch (std::exception const&) {
                thrown = true;
            }
            mc::require(thrown, "a plan of order %ld was created although the maximum is %zu", order, P::max_order());
        });
    }
}

// long transforms: a few inputs with known spectra per order
template<typename C>
void large_plans(long type_id)
{
    std::size_t const last = mc::thorough() ? 20 : 17;
    for (std::size_t order = 10; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        auto const t = static_cast<real>(16 + 6 * order);
        explore_large<C, p_default<C>>("large_fft_plan", type_id, order, n, t, {inplace_flat, out_strided});
        explore_large<C, p_v1<C>>("large_dit2_v1", type_id, order, n, t, {inplace_flat});
        explore_large<C, p_v2<C>>("large_dit2_v2", type_id, order, n, t, {inplace_flat});
        explore_large<C, p_v3<C>>("large_dit2_v3", type_id, order, n, t, {inplace_flat});
        explore_large<C, p_v4<C>>("large_dit2_v4", type_id, order, n, t, {inplace_flat});
        explore_large<C, p_dif2r<C>>("large_stockham_dif2r", type_id, order, n, t, {inplace_flat});
        explore_large<C, p_dif2i<C>>("large_stockham_dif2i", type_id, order, n, t, {inplace_flat});
    }
}

template<typename F>
void large_split(long type_id)
{
    std::size_t const last = mc::thorough() ? 20 : 17;
    for (std::size_t order = 10; order <= last; ++order) {
        auto const n = std::size_t(1) << order;
        for (int sign : {-1, 1}) {
            mc::check("large_split_fft", {type_id, static_cast<long>(order), sign}, [&] {
                auto plan = nf::split_fft_plan<F>{nf::from_order, order};
                large_inputs(n, sign, [&](vec const& x, vec const& want, std::string const& label) {
                    buffer<F> re{n}, im{n};
                    for (std::size_t i = 0; i < n; ++i) {
                        re.at(i) = static_cast<F>(x[i].real());
                        im.at(i) = static_cast<F>(x[i].imag());
                    }
                    plan(neo::split_complex{re.flat(), im.flat()}, dir_of(sign));
                    re.check_guards("split transform");
                    im.check_guards("split transform");
                    std::vector<std::complex<F>> got(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        got[i] = {re.at(i), im.at(i)};
                    }
                    compare(got, want, eps<F>() * static_cast<real>(16 + 6 * order) * l1(x), "split_fft", label, sign);
                    mc::state(mc::hasher{}.add(78).add(type_id).add(n).add(sign).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::transition();
                    mc::trace();
                });
            });
        }
    }
}

#if defined(NEO_HAS_XSIMD)
// kernels on SIMD batches: every lane carries a different basis vector
template<typename F, typename Kernel>
void batch_kernel(char const* name, long id)
{
    using B = xsimd::batch<std::complex<F>>;
    using R = typename B::real_batch;
    constexpr auto lanes = R::size;
    for (std::size_t order = 0; order <= (mc::thorough() ? 9U : 6U); ++order) {
        for (int sign : {-1, 1}) {
            mc::check(name, {id, static_cast<long>(order), sign}, [&] {
                auto const n  = std::size_t(1) << order;
                auto const tw = nf::make_twiddle_lut_radix2<std::complex<F>>(n, dir_of(sign));
                for (std::size_t base = 0; base < n; ++base) {
                    auto buf = Kokkos::Experimental::mdarray<B, ext1>{n};
                    alignas(64) F re[lanes];
                    alignas(64) F im[lanes];
                    for (std::size_t i = 0; i < n; ++i) {
                        for (std::size_t l = 0; l < lanes; ++l) {
                            re[l] = (i == (base + l) % n) ? F(1) : F(0);
                            im[l] = (i == (base + 2 * l + 1) % n) ? F(1) : F(0);
                        }
                        buf(i) = B{R::load_unaligned(re), R::load_unaligned(im)};
                    }
                    nf::bitrevorder_plan{order}(buf.to_mdspan());
                    Kernel{}(buf.to_mdspan(), tw.to_mdspan());
                    mc::transition();
                    for (std::size_t l = 0; l < lanes; ++l) {
                        vec x(n, cplx{});
                        x[(base + l) % n] += cplx{1, 0};
                        x[(base + 2 * l + 1) % n] += cplx{0, 1};
                        std::vector<std::complex<F>> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            buf(i).real().store_unaligned(re);
                            buf(i).imag().store_unaligned(im);
                            got[i] = {re[l], im[l]};
                        }
                        compare(got, dft(x, sign), tolerance<std::complex<F>>(x, order), name, mc::format("lane %zu base %zu", l, base), sign);
                        mc::trace();
                        mc::outcome(hash_values(got));
                    }
                    mc::states(lanes);
                }
            });
        }
    }
}
#endif

/// views whose extents are counted in other types, up to the largest transform each can count
template<typename C>
void index_types(long type_id)
{
    indexed::for_types([&]<typename I>(long type, std::size_t most) {
        for (std::size_t order = 0; order <= 8 && (std::size_t(1) << order) <= most; ++order) {
            mc::check("indexed", {type_id, type, long(order)}, [&] {
                auto const n = std::size_t(1) << order;
                auto const x = dense_step(n, 1);
                auto plan    = nf::fft_plan<C>{nf::from_order, order};
                for (int sign : {-1, 1}) {
                    auto const want = dft(x, sign);
                    for (int v = 0; v < 6; ++v) {
                        auto const st = v == 1 || v == 3 || v == 4 ? std::size_t(2) : std::size_t(1), so = v == 3 || v == 5 ? std::size_t(2) : std::size_t(1);
                        if (n * 2 > most && (st == 2 || so == 2)) {
                            continue;
                        }
                        std::vector<C> a(n * st + 1, mk<C>(cplx{7, 7})), o(n * so + 1, mk<C>(cplx{7, 7}));
                        for (std::size_t i = 0; i < n; ++i) {
                            a[i * st] = mk<C>(x[i]);
                        }
                        switch (v) {
                            case 0: plan(indexed::flat<I>(a.data(), n), dir_of(sign)); break;
                            case 1: plan(indexed::strided<I>(a.data(), n, 2), dir_of(sign)); break;
                            case 2: sign < 0 ? nf::fft(plan, indexed::flat<I>(a.data(), n), indexed::flat<I>(o.data(), n)) : nf::ifft(plan, indexed::flat<I>(a.data(), n), indexed::flat<I>(o.data(), n)); break;
                            case 3: sign < 0 ? nf::fft(plan, indexed::strided<I>(a.data(), n, 2), indexed::strided<I>(o.data(), n, 2)) : nf::ifft(plan, indexed::strided<I>(a.data(), n, 2), indexed::strided<I>(o.data(), n, 2)); break;
                            case 4: sign < 0 ? nf::fft(plan, indexed::strided<I>(a.data(), n, 2), indexed::flat<std::size_t>(o.data(), n)) : nf::ifft(plan, indexed::strided<I>(a.data(), n, 2), indexed::flat<std::size_t>(o.data(), n)); break;
                            default: sign < 0 ? nf::fft(plan, indexed::flat<std::size_t>(a.data(), n), indexed::strided<I>(o.data(), n, 2)) : nf::ifft(plan, indexed::flat<std::size_t>(a.data(), n), indexed::strided<I>(o.data(), n, 2)); break;
                        }
                        mc::transition();
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = v < 2 ? a[i * st] : o[i * so];
                        }
                        compare(got, want, tolerance<C>(x, order), mc::format("extents counted in type %ld, variant %d", type, v).c_str(), "dense", sign);
                        mc::require(lift(a[n * st]) == cplx(7, 7) && lift(o[n * so]) == cplx(7, 7), "a transform of %zu points wrote behind its view", n);
                        mc::states(1);
                        mc::trace();
                    }
                }
            });
        }
    });
}

void run()
{
#if MC_PART == 0
    index_types<std::complex<double>>(1);
    index_types<std::complex<float>>(0);
    all_plans<std::complex<float>>(0);
    all_plans<std::complex<double>>(1);
    split_plan<float>(0);
    split_plan<double>(1);
#elif MC_PART == 2
    large_plans<std::complex<float>>(0);
    large_plans<std::complex<double>>(1);
    large_split<float>(0);
    large_split<double>(1);
#else
    index_types<neo::scalar_complex<float>>(2);
    all_plans<neo::scalar_complex<float>>(2);
    all_plans<neo::scalar_complex<double>>(3);
    interleaved_plan<float>(0);
    interleaved_plan<double>(1);
    bit_reversal();
    rejected_orders();
    #if defined(NEO_HAS_XSIMD)
    batch_kernel<float, nf::kernel::c2c_dit2_v1>("batch_v1", 0);
    batch_kernel<float, nf::kernel::c2c_dit2_v2>("batch_v2", 0);
    batch_kernel<float, nf::kernel::c2c_dit2_v3>("batch_v3", 0);
    batch_kernel<float, nf::kernel::c2c_dit2_v4>("batch_v4", 0);
    batch_kernel<double, nf::kernel::c2c_dit2_v1>("batch_v1", 1);
    batch_kernel<double, nf::kernel::c2c_dit2_v2>("batch_v2", 1);
    batch_kernel<double, nf::kernel::c2c_dit2_v3>("batch_v3", 1);
    batch_kernel<double, nf::kernel::c2c_dit2_v4>("batch_v4", 1);
    #endif
#endif
}

}  // namespace

MC_MAIN(run)
