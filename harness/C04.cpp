// MC-TITLE: Arbitrary-length DFT matches the definition for every length
// MC-TECH: every length x type x direction x call variant, all basis vectors and small-alphabet words, oracle = DFT sum
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: avx512 v3rel
// MC-BOUNDS: Quick: every length 1..40 with every basis vector (times 1 and i), selected lengths to 257 with sparse basis vectors, all words over {0,1,i,-1,-i} up to n=4 and {0,1} up to n=9; both directions; plan in place, dft()/idft() in and out of place, direct sum; strided and mixed views; every length 41..300 and 26 longer lengths up to 100003 with 4 weighted basis vectors and one dense vector with a closed-form spectrum. Thorough: all lengths to 130 full, more to 1031. Extents counted in seven integer types. The dense vector is also run scaled by 2^-90, 2^-45, 2^45 and 2^90. Every word of four directions on a fresh plan (lengths to 65).
#include "indexed.hpp"
#include "fftcommon.hpp"

using namespace fc;
namespace nf = neo::fft;

namespace {

template<typename C>
auto tol_dft(vec const& x, std::size_t n) -> real
{
    // the angle argument of the definition grows with n, so does its rounding error
    return eps<typename C::value_type>() * (64.0L + 16.0L * static_cast<real>(n)) * (l1(x) + 1e-30L);
}

auto lengths() -> std::vector<std::size_t>
{
    std::vector<std::size_t> v;
    for (std::size_t n = 1; n <= (mc::thorough() ? 130U : 40U); ++n) {
        v.push_back(n);
    }
    for (std::size_t n : {47, 49, 63, 64, 65, 81, 97, 100, 121, 125, 127, 128, 129, 251, 255, 256, 257}) {
        if (n > v.back()) {
            v.push_back(n);
        }
    }
    if (mc::thorough()) {
        for (std::size_t n : {343, 509, 511, 512, 513, 1000, 1023, 1024, 1025, 1031}) {
            v.push_back(n);
        }
    }
    return v;
}

template<typename C>
void plans(long type_id)
{
    for (auto n : lengths()) {
        for (int variant = 0; variant < 8; ++variant) {
            for (int sign : {-1, 1}) {
                mc::check("dft", {type_id, static_cast<long>(n), variant, sign}, [&] {
                    auto plan = nf::dft_plan<C>{n};
                    mc::require(plan.size() == n, "size() of a %zu-point plan is %zu", n, std::size_t(plan.size()));
                    complex_inputs(n, n <= (mc::thorough() ? 130U : 40U), 1000, [&](vec const& x, std::string const& label) {
                        buffer<C> a{n, variant % 2 == 1 ? std::size_t(2) : std::size_t(1)}, o{n, variant == 3 || variant == 5 || variant == 6 ? std::size_t(3) : std::size_t(1)};
                        for (std::size_t i = 0; i < n; ++i) {
                            a.at(i) = mk<C>(x[i]);
                        }
                        auto const before = a.mem;
                        auto oop          = false;
                        switch (variant) {
                            case 0: plan(a.flat(), dir_of(sign)); break;
                            case 1: sign < 0 ? nf::dft(plan, a.strided()) : nf::idft(plan, a.strided()); break;
                            case 2:
                                oop = true;
                                sign < 0 ? nf::dft(plan, a.cflat(), o.flat()) : nf::idft(plan, a.cflat(), o.flat());
                                break;
                            case 3:
                                oop = true;
                                sign < 0 ? nf::dft(plan, a.cstrided(), o.strided()) : nf::idft(plan, a.cstrided(), o.strided());
                                break;
                            case 4:
                                oop = true;
                                if (sign < 0) {
                                    nf::dft(a.cflat(), o.flat());
                                } else {
                                    nf::dft(a.cflat(), o.flat(), nf::direction::backward);
                                }
                                break;
                            case 6:
                                oop = true;
                                sign < 0 ? nf::dft(plan, a.cflat(), o.strided()) : nf::idft(plan, a.cflat(), o.strided());
                                break;
                            case 7:
                                oop = true;
                                sign < 0 ? nf::dft(plan, a.cstrided(), o.flat()) : nf::idft(plan, a.cstrided(), o.flat());
                                break;
                            default:
                                oop = true;
                                nf::dft(a.cstrided(), o.strided(), dir_of(sign));
                                break;
                        }
                        mc::transition();
                        auto& r = oop ? o : a;
                        r.check_guards("dft");
                        if (oop) {
                            mc::require(std::memcmp((void const*)before.data(), (void const*)a.mem.data(), sizeof(C) * before.size()) == 0, "out-of-place dft modified its input");
                        }
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = r.at(i);
                        }
                        compare(got, dft(x, sign), tol_dft<C>(x, n), mc::format("dft variant %d", variant).c_str(), label, sign);
                        mc::state(mc::hasher{}.add(type_id).add(n).add(variant).add(sign).bytes(label.data(), label.size()).h);
                        mc::outcome(hash_values(got));
                        mc::trace();
                    });
                    mc::sample("dft type=%ld n=%zu variant=%d", type_id, n, variant);
                });
            }
        }
        if (n <= 65) {
            mc::check("directions", {type_id, static_cast<long>(n)}, [&] {
                direction_words([&](int w, auto sign) {
                    auto plan = nf::dft_plan<C>{n};
                    buffer<C> a{n}, o{n};
                    for (int t = 0; t < 4; ++t) {
                        auto const x = dense_step(n, t);
                        for (std::size_t i = 0; i < n; ++i) {
                            a.at(i) = mk<C>(x[i]);
                        }
                        auto const oop = (t + w) % 3 == 2;
                        if (oop) {
                            sign(t) < 0 ? nf::dft(plan, a.cflat(), o.flat()) : nf::idft(plan, a.cflat(), o.flat());
                        } else {
                            plan(a.flat(), dir_of(sign(t)));
                        }
                        mc::transition();
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = oop ? o.at(i) : a.at(i);
                        }
                        compare(got, dft(x, sign(t)), tol_dft<C>(x, n), mc::format("dft plan, call %d of directions %x", t, unsigned(w)).c_str(), "dense", sign(t));
                    }
                    mc::states(4);
                    mc::trace();
                });
            });
        }
        mc::check("roundtrip", {type_id, static_cast<long>(n)}, [&] {
            auto plan = nf::dft_plan<C>{n};
            complex_inputs(n, n <= 40, 200, [&](vec const& x, std::string const& label) {
                buffer<C> a{n};
                for (std::size_t i = 0; i < n; ++i) {
                    a.at(i) = mk<C>(x[i]);
                }
                nf::dft(plan, a.flat());
                nf::idft(plan, a.flat());
                mc::transition(2);
                for (std::size_t i = 0; i < n; ++i) {
                    auto const want = x[i] * static_cast<real>(n);
                    mc::require(dist(lift(a.at(i)), want) <= static_cast<real>(n) * tol_dft<C>(x, n), "idft(dft(x)) n=%zu input %s: element %zu", n, label.c_str(), i);
                }
                mc::states(1);
                mc::trace();
            });
        });
    }
}

// longer transforms: a few inputs with known spectra for every length in a range and selected long ones
template<typename C>
void large(long type_id)
{
    std::vector<std::size_t> v;
    for (std::size_t n = 41; n <= (mc::thorough() ? 1100U : 300U); ++n) {
        v.push_back(n);
    }
    for (std::size_t n : {511, 512, 513, 1000, 1023, 1025, 1031, 2047, 2049, 4095, 4096, 4097, 8191, 10007, 16385, 32767, 32769, 44100, 46341, 65535, 65536, 65537, 65600, 70001, 92683, 100003}) {
        if (n > v.back()) {
            v.push_back(n);
        }
    }
    for (auto n : v) {
        for (int sign : {-1, 1}) {
            mc::check("large", {type_id, static_cast<long>(n), sign}, [&] {
                auto plan = nf::dft_plan<C>{n};
                large_inputs(n, sign, [&](vec const& x, vec const& want, std::string const& label) {
                    buffer<C> a{n};
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(i) = mk<C>(x[i]);
                    }
                    plan(a.flat(), dir_of(sign));
                    a.check_guards("dft");
                    mc::transition();
                    std::vector<C> got(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        got[i] = a.at(i);
                    }
                    compare(got, want, tol_dft<C>(x, n), "dft plan", label, sign);
                    mc::state(mc::hasher{}.add(91).add(type_id).add(n).add(sign).bytes(label.data(), label.size()).h);
                    mc::outcome(hash_values(got));
                    mc::trace();
                });
            });
        }
    }
}

/// views whose extents are counted in other types
template<typename C>
void index_types(long type_id)
{
    indexed::for_types([&]<typename I>(long type, std::size_t most) {
        for (std::size_t n : {1, 2, 3, 5, 12, 63, 64, 127, 128, 200, 255, 257}) {
            if (n > most) {
                continue;
            }
            mc::check("indexed", {type_id, type, long(n)}, [&] {
                auto const x = dense_step(n, 1);
                auto plan    = nf::dft_plan<C>{n};
                for (int sign : {-1, 1}) {
                    auto const want = dft(x, sign);
                    for (int v = 0; v < 3; ++v) {
                        std::vector<C> a(n + 1, mk<C>(cplx{7, 7})), o(n + 1, mk<C>(cplx{7, 7}));
                        for (std::size_t i = 0; i < n; ++i) {
                            a[i] = mk<C>(x[i]);
                        }
                        auto const A  = indexed::flat<I>(a.data(), n);
                        auto const cA = indexed::flat<I>(static_cast<C const*>(a.data()), n);
                        auto const O  = indexed::flat<I>(o.data(), n);
                        switch (v) {
                            case 0: sign < 0 ? nf::dft(plan, A) : nf::idft(plan, A); break;
                            case 1: sign < 0 ? nf::dft(plan, cA, O) : nf::idft(plan, cA, O); break;
                            default: nf::dft(cA, O, dir_of(sign)); break;
                        }
                        mc::transition();
                        auto got = v == 0 ? a : o;
                        mc::require(lift(a[n]) == cplx(7, 7) && lift(o[n]) == cplx(7, 7), "a transform of %zu points wrote behind its view", n);
                        got.resize(n);
                        compare(got, want, tol_dft<C>(x, n), mc::format("extents counted in type %ld, variant %d", type, v).c_str(), "dense", sign);
                        mc::states(1);
                        mc::trace();
                    }
                }
            });
        }
    });
}

void run()
{
    index_types<std::complex<double>>(1);
    index_types<std::complex<float>>(0);
    large<std::complex<double>>(1);
    large<std::complex<float>>(0);
    plans<std::complex<float>>(0);
    plans<std::complex<double>>(1);
}

}  // namespace

MC_MAIN(run)
