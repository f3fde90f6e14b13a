// MC-TITLE: Vendor-library backends behave like the portable plans and leak nothing
// MC-TECH: adapters compiled against stand-ins of Intel IPP, Intel MKL and Apple Accelerate that check the vendors' calling contract; all basis vectors and words x call variants x library layouts, all histories of construction, move, assignment, use and destruction over two slots, and a refusal of every single setup call
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 3
// MC-INCLUDE: verif:stubs/vendor
// MC-BOUNDS: Transforms: every backend plan (complex, split, real, arbitrary-length, DCT) for orders 0..5 (thorough 8), lengths 1..12 (thorough 32), float and double, both complex types, every basis vector and small word, both directions, in place, out of place, const and strided views, exact and larger half spectra; IPP with padded and unpadded specifications, with and without scratch buffers. Values: every word of length 5 (thorough 6) over 10 letters on two slots. Faults: every setup call of every plan refused in turn. On top: BLAS scaling and vDSP multiply-add for every length 0..20, and one streaming convolution per backend.
// MC-ASSUME: the stand-ins under stubs/vendor follow the vendors' documentation (unnormalised transforms, CCS packing, orthonormal DCT, descriptor life cycle); the real libraries are not installed here.
#if MC_PART == 0
    #define NEO_HAS_INTEL_IPP 1
#elif MC_PART == 1
    #define NEO_HAS_INTEL_MKL 1
#else
    #define NEO_HAS_APPLE_ACCELERATE 1
    #define __MAC_OS_X_VERSION_MIN_REQUIRED 130300
#endif
#include "convcommon.hpp"
#include "fftcommon.hpp"

#include <neo/algorithm.hpp>

#include <optional>

namespace nf = neo::fft;
using namespace fc;

namespace {

#if MC_PART == 0
constexpr char const* backend = "ipp";
constexpr int layouts[]       = {0, 1, 2, 4, 7};
#else
constexpr char const* backend = MC_PART == 1 ? "mkl" : "vdsp";
constexpr int layouts[]       = {0};
#endif

void contract(char const* what)
{
    mc::require(vendor::state().misuse.empty(), "%s: %s: %s", backend, what, vendor::state().misuse.c_str());
}

void balanced(char const* what)
{
    contract(what);
    mc::require(vendor::state().live == 0, "%s: %s: %ld objects of the library were never released", backend, what, vendor::state().live);
}

/// f under every layout of the library's objects, with the accounting checked afterwards
template<typename F>
void scenario(char const* name, std::vector<long> key, F f)
{
    for (auto layout : layouts) {
        key.push_back(layout);
        mc::check(name, key, [&] {
            vendor::reset(layout);
            f();
            balanced(name);
        });
        key.pop_back();
    }
}

std::size_t max_order() { return mc::thorough() ? 8 : 5; }
std::uint64_t word_cap() { return mc::thorough() ? 700 : 130; }

template<typename C>
void complex_plan(long type)
{
    for (std::size_t order = 0; order <= max_order(); ++order) {
        auto const n = std::size_t(1) << order;
        for (int v : {inplace_flat, inplace_strided, free_inplace, out_flat, out_strided, out_gather, out_scatter}) {
            for (int sign : {-1, 1}) {
                scenario("complex", {type, long(order), v, sign}, [&] {
                    auto plan = nf::fft_plan<C>{nf::from_order, order};
                    mc::require(plan.order() == order && plan.size() == n, "order()/size() of order %zu", order);
                    complex_inputs(n, true, word_cap(), [&](vec const& x, std::string const& label) {
                        auto const got = apply<C>(plan, x, sign, v);
                        compare(got, dft(x, sign), tolerance<C>(x, order), variant_name[v], label, sign);
                        contract("complex transform");
                        mc::state(mc::hasher{}.add(type).add(n).add(v).add(sign).add(vendor::state().layout).bytes(label.data(), label.size()).h);
                        mc::outcome(hash_values(got));
                        mc::trace();
                    });
                });
            }
        }
    }
}

template<typename F>
void split(long type)
{
    for (std::size_t order = 0; order <= max_order(); ++order) {
        auto const n = std::size_t(1) << order;
        for (int variant = 0; variant < 5; ++variant) {
            for (int sign : {-1, 1}) {
                scenario("split", {type, long(order), variant, sign}, [&] {
                    auto plan = nf::split_fft_plan<F>{nf::from_order, order};
                    mc::require(plan.order() == order && plan.size() == n, "order()/size() of order %zu", order);
                    complex_inputs(n, true, word_cap(), [&](vec const& x, std::string const& label) {
                        auto const st = variant == 1 || variant >= 3 ? std::size_t(2) : std::size_t(1);
                        buffer<F> re{n, st}, im{n, st}, ore{n, variant == 4 ? std::size_t(1) : st}, oim{n, variant == 4 ? std::size_t(1) : st};
                        for (std::size_t i = 0; i < n; ++i) {
                            re.at(i) = static_cast<F>(x[i].real());
                            im.at(i) = static_cast<F>(x[i].imag());
                        }
                        auto const re0 = re.mem;
                        auto const im0 = im.mem;
                        auto const d   = dir_of(sign);
                        switch (variant) {
                            case 0: plan(neo::split_complex{re.flat(), im.flat()}, d); break;
                            case 1: plan(neo::split_complex{re.strided(), im.strided()}, d); break;
                            case 2: plan(neo::split_complex{re.cflat(), im.cflat()}, neo::split_complex{ore.flat(), oim.flat()}, d); break;
                            case 3: plan(neo::split_complex{re.cstrided(), im.cstrided()}, neo::split_complex{ore.strided(), oim.strided()}, d); break;
                            default: plan(neo::split_complex{re.cstrided(), im.cstrided()}, neo::split_complex{ore.flat(), oim.flat()}, d); break;
                        }
                        mc::transition();
                        contract("split transform");
                        auto& rr = variant < 2 ? re : ore;
                        auto& ri = variant < 2 ? im : oim;
                        if (variant >= 2) {
                            mc::require(re0 == re.mem && im0 == im.mem, "split transform modified its input");
                        }
                        rr.check_guards("split transform, real part");
                        ri.check_guards("split transform, imaginary part");
                        std::vector<std::complex<F>> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = {rr.at(i), ri.at(i)};
                        }
                        compare(got, dft(x, sign), tolerance<std::complex<F>>(x, order), mc::format("split variant %d", variant).c_str(), label, sign);
                        mc::state(mc::hasher{}.add(1001).add(type).add(n).add(variant).add(sign).add(vendor::state().layout).bytes(label.data(), label.size()).h);
                        mc::outcome(hash_values(got));
                        mc::trace();
                    });
                });
            }
        }
    }
}

template<typename F, typename C>
void real_plan(long type)
{
    for (std::size_t order = 0; order <= max_order(); ++order) {
        auto const n     = std::size_t(1) << order;
        auto const coefs = n / 2 + 1;
        for (int variant = 0; variant < 6; ++variant) {
            scenario("real", {type, long(order), variant}, [&] {
                auto plan = nf::rfft_plan<F, C>{nf::from_order, order};
                mc::require(plan.order() == order && plan.size() == n, "order()/size() of order %zu", order);
                real_inputs(n, true, word_cap(), [&](rvec const& x, std::string const& label) {
                    auto const st   = variant == 2 || variant == 3 || variant == 4 ? std::size_t(2) : std::size_t(1);  // samples
                    auto const cst  = variant == 2 || variant == 3 || variant == 5 ? std::size_t(2) : std::size_t(1);  // coefficients
                    auto const size = variant % 2 == 0 ? coefs : std::max(n, coefs);
                    buffer<F> in{n, st}, back{n, st};
                    buffer<C> out{size, cst};
                    vec cx(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        in.at(i) = static_cast<F>(x[i]);
                        cx[i]    = x[i];
                    }
                    for (std::size_t i = 0; i < size; ++i) {
                        out.at(i) = C{F(77), F(-99)};
                    }
                    auto const before = in.mem;
                    if (variant < 2) {
                        nf::rfft(plan, in.cflat(), out.flat());
                    } else if (variant == 4) {
                        nf::rfft(plan, in.cstrided(), out.flat());
                    } else if (variant == 5) {
                        nf::rfft(plan, in.cflat(), out.strided());
                    } else {
                        nf::rfft(plan, in.cstrided(), out.strided());
                    }
                    contract("real transform");
                    mc::require(before == in.mem, "rfft modified its input");
                    out.check_guards("rfft output");
                    auto const want = dft(cx, -1);
                    auto const tol  = tolerance<C>(cx, order);
                    for (std::size_t k = 0; k < coefs; ++k) {
                        mc::require(dist(lift(out.at(k)), want[k]) <= tol, "rfft variant %d n=%zu of %s: bin %zu", variant, n, label.c_str(), k);
                        out.at(k) = mk<C>(want[k]);
                    }
                    for (std::size_t i = coefs; i < size; ++i) {
                        mc::require(out.at(i).real() == F(77) && out.at(i).imag() == F(-99), "rfft n=%zu wrote beyond the %zu coefficients (index %zu)", n, coefs, i);
                    }
                    if (variant < 2) {
                        nf::irfft(plan, out.cflat(), back.flat());
                    } else if (variant == 4) {
                        nf::irfft(plan, out.cflat(), back.strided());
                    } else if (variant == 5) {
                        nf::irfft(plan, out.cstrided(), back.flat());
                    } else {
                        nf::irfft(plan, out.cstrided(), back.strided());
                    }
                    contract("inverse real transform");
                    out.check_guards("irfft input");
                    back.check_guards("irfft output");
                    for (std::size_t i = 0; i < n; ++i) {
                        mc::require(dist(real(back.at(i)), x[i] * real(n)) <= tol * real(n), "irfft variant %d n=%zu of the spectrum of %s: sample %zu is %g", variant, n, label.c_str(), i, double(back.at(i)));
                    }
                    mc::transition(2);
                    mc::state(mc::hasher{}.add(1002).add(type).add(n).add(variant).add(vendor::state().layout).bytes(label.data(), label.size()).h);
                    mc::trace(2);
                });
            });
        }
    }
}

template<typename C>
void length_plan(long type)
{
    for (std::size_t n = 1; n <= (mc::thorough() ? 32U : 12U); ++n) {
        for (int v = 0; v < 6; ++v) {
            for (int sign : {-1, 1}) {
                scenario("length", {type, long(n), v, sign}, [&] {
                    auto plan = nf::dft_plan<C>{n};
                    mc::require(plan.size() == n, "size() of length %zu", n);
                    complex_inputs(n, true, word_cap(), [&](vec const& x, std::string const& label) {
                        // 0, 1 in place; 2, 3 out of place; 4 from strided to contiguous, 5 the other way round
                        buffer<C> a{n, v == 1 || v == 3 || v == 4 ? std::size_t(3) : std::size_t(1)}, o{n, v == 1 || v == 3 || v == 5 ? std::size_t(3) : std::size_t(1)};
                        for (std::size_t i = 0; i < n; ++i) {
                            a.at(i) = mk<C>(x[i]);
                        }
                        auto go = [&](auto&& in, auto&& inout, auto&& out) {
                            if (v < 2) {
                                sign < 0 ? nf::dft(plan, inout) : nf::idft(plan, inout);
                            } else {
                                sign < 0 ? nf::dft(plan, in, out) : nf::idft(plan, in, out);
                            }
                        };
                        if (v == 4) {
                            sign < 0 ? nf::dft(plan, a.cstrided(), o.flat()) : nf::idft(plan, a.cstrided(), o.flat());
                        } else if (v == 5) {
                            sign < 0 ? nf::dft(plan, a.cflat(), o.strided()) : nf::idft(plan, a.cflat(), o.strided());
                        } else if (v % 2 == 0) {
                            go(a.cflat(), a.flat(), o.flat());
                        } else {
                            go(a.cstrided(), a.strided(), o.strided());
                        }
                        mc::transition();
                        contract("arbitrary-length transform");
                        auto& r = v < 2 ? a : o;
                        r.check_guards("arbitrary-length transform");
                        std::vector<C> got(n);
                        for (std::size_t i = 0; i < n; ++i) {
                            got[i] = r.at(i);
                            if (v >= 2) {
                                mc::require(lift(a.at(i)) == lift(mk<C>(x[i])), "dft modified its input");
                            }
                        }
                        compare(got, dft(x, sign), real(4) * tolerance<C>(x, 6), mc::format("dft plan variant %d", v).c_str(), label, sign);
                        mc::state(mc::hasher{}.add(1003).add(type).add(n).add(v).add(sign).add(vendor::state().layout).bytes(label.data(), label.size()).h);
                        mc::trace();
                    });
                });
            }
        }
    }
}

#if MC_PART == 0
// the DCT plans of IPP: type 3 undoes type 2, type 2 is the DCT up to the library's scaling
template<typename F>
void dct_plan(long type)
{
    for (std::size_t order = 0; order <= max_order(); ++order) {
        auto const n = std::size_t(1) << order;
        for (int strided = 0; strided < 2; ++strided) {
            scenario("dct", {type, long(order), strided}, [&] {
                auto two   = nf::intel_ipp_dct2_plan<F>{nf::from_order, order};
                auto three = nf::intel_ipp_dct3_plan<F>{nf::from_order, order};
                mc::require(two.order() == order && two.size() == n && three.order() == order && three.size() == n, "order()/size() of order %zu", order);
                real_inputs(n, true, word_cap(), [&](rvec const& x, std::string const& label) {
                    buffer<F> a{n, strided ? std::size_t(2) : std::size_t(1)};
                    real sum = 1e-30L;
                    for (std::size_t i = 0; i < n; ++i) {
                        a.at(i) = static_cast<F>(x[i]);
                        sum += std::abs(x[i]);
                    }
                    strided ? two(a.strided()) : two(a.flat());
                    contract("dct2");
                    a.check_guards("dct2");
                    auto const tol = eps<F>() * 40 * sum;
                    for (std::size_t k = 0; k < n; ++k) {
                        real w = 0;
                        for (std::size_t i = 0; i < n; ++i) {
                            w += x[i] * std::cos(std::numbers::pi_v<real> * real((2 * i + 1) * k % (4 * n)) / real(2 * n));
                        }
                        w *= std::sqrt((k == 0 ? real(1) : real(2)) / real(n));
                        mc::require(dist(real(a.at(k)), w) <= tol, "dct2 n=%zu of %s: coefficient %zu", n, label.c_str(), k);
                    }
                    strided ? three(a.strided()) : three(a.flat());
                    contract("dct3");
                    a.check_guards("dct3");
                    for (std::size_t i = 0; i < n; ++i) {
                        mc::require(dist(real(a.at(i)), x[i]) <= 4 * tol, "dct3 of dct2, n=%zu, %s: sample %zu", n, label.c_str(), i);
                    }
                    mc::transition(2);
                    mc::states(1);
                    mc::trace();
                });
            });
        }
    }
}
#endif

/// one transform of a plan, compared with the model
template<typename C, typename Plan>
void use_complex(Plan& plan, std::size_t n)
{
    vec x(n);
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = cplx(real(long(i * 7 % 5) - 2), real(long(i * 3 % 7) - 3));
    }
    for (int sign : {-1, 1}) {
        buffer<C> a{n}, b{n, 2};
        for (std::size_t i = 0; i < n; ++i) {
            a.at(i) = b.at(i) = mk<C>(x[i]);
        }
        plan(a.flat(), dir_of(sign));
        plan(b.strided(), dir_of(sign));
        auto const want = dft(x, sign);
        for (std::size_t i = 0; i < n; ++i) {
            mc::require(dist(lift(a.at(i)), want[i]) <= 64 * eps<typename C::value_type>() * l1(x), "wrong transform after this history (bin %zu of %zu)", i, n);
            mc::require(dist(lift(b.at(i)), want[i]) <= 64 * eps<typename C::value_type>() * l1(x), "wrong strided transform after this history (bin %zu of %zu)", i, n);
        }
    }
}
template<typename F, typename Plan>
void use_split(Plan& plan, std::size_t n)
{
    vec x(n);
    buffer<F> re{n}, im{n};
    for (std::size_t i = 0; i < n; ++i) {
        x[i]     = cplx(real(long(i * 7 % 5) - 2), real(long(i * 3 % 7) - 3));
        re.at(i) = static_cast<F>(x[i].real());
        im.at(i) = static_cast<F>(x[i].imag());
    }
    plan(neo::split_complex{re.flat(), im.flat()}, nf::direction::forward);
    auto const want = dft(x, -1);
    for (std::size_t i = 0; i < n; ++i) {
        mc::require(dist(cplx(real(re.at(i)), real(im.at(i))), want[i]) <= 64 * eps<F>() * l1(x), "wrong split transform after this history (bin %zu of %zu)", i, n);
    }
}
template<typename F, typename Plan>
void use_real(Plan& plan, std::size_t n)
{
    using C = typename Plan::complex_type;
    vec x(n);
    buffer<F> in{n, 2};
    buffer<C> out{n / 2 + 1, 2};
    for (std::size_t i = 0; i < n; ++i) {
        x[i]     = real(long(i * 7 % 5) - 2);
        in.at(i) = static_cast<F>(x[i].real());
    }
    plan(in.cstrided(), out.strided());
    auto const want = dft(x, -1);
    for (std::size_t i = 0; i <= n / 2; ++i) {
        mc::require(dist(lift(out.at(i)), want[i]) <= 64 * eps<F>() * (l1(x) + 1), "wrong real transform after this history (bin %zu of %zu)", i, n);
    }
}
#if MC_PART == 0
template<typename F, typename Plan>
void use_dct(Plan& plan, std::size_t n)
{
    buffer<F> a{n};
    for (std::size_t i = 0; i < n; ++i) {
        a.at(i) = F(long(i * 7 % 5) - 2);
    }
    plan(a.flat());
    a.check_guards("dct");
}
#endif

// all words over two slots
template<typename Plan>
void histories(char const* name, auto make, auto use)
{
    constexpr std::size_t letters = 10;
    std::size_t const depth       = mc::thorough() ? 6 : 5;
    for (std::size_t first = 0; first < letters; ++first) {
        mc::check(name, {long(first)}, [&] {
            std::size_t total = 1;
            for (std::size_t i = 1; i < depth; ++i) {
                total *= letters;
            }
            for (std::size_t w = 0; w < total; ++w) {
                vendor::reset(int(w % 8));
                std::string word;
                {
                    std::optional<Plan> slot[2];
                    std::size_t size[2] = {0, 0};  // 0: empty or moved from
                    auto r              = w * letters + first;
                    bool valid          = true;
                    for (std::size_t step = 0; step < depth && valid; ++step, r /= letters) {
                        auto const op = r % letters;
                        auto const s  = op % 2;
                        switch (op / 2) {
                            case 0:  // replace
                                slot[s].reset();
                                slot[s].emplace(make(s == 0 ? 2U : 3U));
                                size[s] = s == 0 ? 2 : 3;
                                word += s == 0 ? "new0 " : "new1 ";
                                break;
                            case 1:  // use
                                if (!(valid = size[s] != 0)) {
                                    break;
                                }
                                use(*slot[s], size[s]);
                                word += s == 0 ? "use0 " : "use1 ";
                                break;
                            case 2:  // move assignment
                                if (!(valid = slot[0].has_value() && slot[1].has_value() && size[1 - s] != 0)) {
                                    break;
                                }
                                *slot[s]    = std::move(*slot[1 - s]);
                                size[s]     = size[1 - s];
                                size[1 - s] = 0;
                                word += s == 0 ? "0=move1 " : "1=move0 ";
                                break;
                            case 3:  // move construction
                                if (!(valid = slot[s].has_value() && size[s] != 0)) {
                                    break;
                                }
                                {
                                    auto moved = Plan{std::move(*slot[s])};
                                    slot[s].reset();
                                    slot[s].emplace(std::move(moved));
                                }
                                word += s == 0 ? "relocate0 " : "relocate1 ";
                                break;
                            default:
                                if (s == 0) {
                                    if (!(valid = slot[0].has_value() && slot[1].has_value() && size[0] != 0 && size[1] != 0)) {
                                        break;
                                    }
                                    std::swap(*slot[0], *slot[1]);
                                    std::swap(size[0], size[1]);
                                    word += "swap ";
                                } else {
                                    if (!(valid = slot[1].has_value())) {
                                        break;
                                    }
                                    slot[1].reset();
                                    size[1] = 0;
                                    word += "drop1 ";
                                }
                                break;
                        }
                        mc::transition();
                        contract(word.c_str());
                    }
                    if (!valid) {
                        continue;
                    }
                    for (int s = 0; s < 2; ++s) {
                        if (size[s] != 0) {
                            use(*slot[s], size[s]);
                            contract(word.c_str());
                        }
                    }
                }
                balanced(word.c_str());
                mc::states(1);
                mc::trace();
            }
        });
    }
    // every setup call refused in turn
    mc::check(name, {-1}, [&] {
        for (auto layout : layouts) {
            for (std::size_t o = 0; o < 5; ++o) {
                vendor::reset(layout);
                {
                    auto plan = make(o);
                }
                auto const calls = vendor::state().calls;
                balanced("construction");
                for (long k = 0; k < calls; ++k) {
                    vendor::reset(layout);
                    vendor::state().fail_at = k;
                    bool thrown             = false;
                    bool works              = false;
                    try {
                        auto plan = make(o);
                        use(plan, o);
                        works = true;
                    } catch (mc::failure const&) {
                        throw;
                    } catch (std::exception const&) {
                        thrown = true;
                    }
                    mc::require(thrown || works, "call %ld refused: nothing reported", k);
                    balanced(mc::format("setup call %ld of %ld refused (order %zu)", k, calls, o).c_str());
                    mc::transition();
                    mc::states(1);
                    mc::trace();
                }
            }
        }
    });
}

template<typename F>
void values(long type)
{
    using C        = std::complex<F>;
    auto named     = [&](char const* n) { return mc::format("%s_%ld", n, type); };
    auto by_order  = []<typename P>(std::type_identity<P>) { return [](std::size_t o) { return P{nf::from_order, o}; }; };
    auto by_length = []<typename P>(std::type_identity<P>) { return [](std::size_t o) { return P{o + 1}; }; };
    (void)by_length;
    auto const size = [](std::size_t o) { return std::size_t(1) << o; };
    histories<nf::fft_plan<C>>(named("values_complex").c_str(), by_order(std::type_identity<nf::fft_plan<C>>{}), [&](auto& p, std::size_t o) { use_complex<C>(p, size(o)); });
    histories<nf::split_fft_plan<F>>(named("values_split").c_str(), by_order(std::type_identity<nf::split_fft_plan<F>>{}), [&](auto& p, std::size_t o) { use_split<F>(p, size(o)); });
    histories<nf::rfft_plan<F, C>>(named("values_real").c_str(), by_order(std::type_identity<nf::rfft_plan<F, C>>{}), [&](auto& p, std::size_t o) { use_real<F>(p, size(o)); });
#if MC_PART == 0
    histories<nf::dft_plan<C>>(named("values_length").c_str(), by_length(std::type_identity<nf::dft_plan<C>>{}), [&](auto& p, std::size_t o) { use_complex<C>(p, o + 1); });
    histories<nf::intel_ipp_dct2_plan<F>>(named("values_dct").c_str(), by_order(std::type_identity<nf::intel_ipp_dct2_plan<F>>{}), [&](auto& p, std::size_t o) { use_dct<F>(p, size(o)); });
#endif
}

void rejected()
{
    mc::check("rejected", {0}, [&] {
        for (std::size_t order : {28U, 29U, 31U, 40U, 63U}) {
            vendor::reset(0);
            bool thrown = false;
            try {
                auto plan = nf::fft_plan<std::complex<double>>{nf::from_order, order};
            } catch (std::exception const&) {
                thrown = true;
            }
            mc::require(thrown, "%s: order %zu is accepted", backend, order);
            balanced("rejected order");
            mc::transition();
            mc::states(1);
            mc::trace();
        }
    });
}

// element-wise operations that are delegated to BLAS or vDSP
template<typename T, typename S>
void scaling(long type)
{
    mc::check("scale", {type}, [&] {
        for (std::size_t n = 0; n <= 20; ++n) {
            for (std::size_t st : {1U, 3U}) {
                buffer<T> a{n, st};
                std::vector<T> x(n);
                for (std::size_t i = 0; i < n; ++i) {
                    if constexpr (neo::complex<T>) {
                        x[i] = T(typename T::value_type(i) + 1, typename T::value_type(2) - typename T::value_type(i));
                    } else {
                        x[i] = T(i) - T(3);
                    }
                    a.at(i) = x[i];
                }
                auto alpha = S(2);
                if constexpr (neo::complex<S>) {
                    alpha = S(2, -1);
                }
                st == 1 ? neo::scale(alpha, a.flat()) : neo::scale(alpha, a.strided());
                a.check_guards("scale");
                for (std::size_t i = 0; i < n; ++i) {
                    mc::require(a.at(i) == x[i] * alpha, "scale: element %zu of %zu, stride %zu", i, n, st);
                }
                mc::transition();
                mc::states(1);
                mc::trace();
            }
        }
    });
}

template<typename F>
void multiply_add(long type)
{
    mc::check("multiply_add", {type}, [&] {
        for (std::size_t n = 0; n <= 20; ++n) {
            for (int alias = 0; alias < 2; ++alias) {
                buffer<F> b[8] = {buffer<F>{n}, buffer<F>{n}, buffer<F>{n}, buffer<F>{n}, buffer<F>{n}, buffer<F>{n}, buffer<F>{n}, buffer<F>{n}};
                for (int j = 0; j < 6; ++j) {
                    for (std::size_t i = 0; i < n; ++i) {
                        b[j].at(i) = F(long((i * 5 + std::size_t(j) * 3) % 11) - 5);
                    }
                }
                std::vector<std::complex<F>> want(n);
                for (std::size_t i = 0; i < n; ++i) {
                    auto c  = [&](int j) { return std::complex<F>(b[j].at(i), b[j + 1].at(i)); };
                    want[i] = c(0) * c(2) + c(4);
                }
                auto const o = alias ? 4 : 6;
                neo::multiply_add(neo::split_complex{b[0].cflat(), b[1].cflat()}, neo::split_complex{b[2].cflat(), b[3].cflat()}, neo::split_complex{b[4].cflat(), b[5].cflat()},
                                  neo::split_complex{b[o].flat(), b[o + 1].flat()});
                for (std::size_t i = 0; i < n; ++i) {
                    mc::require(b[o].at(i) == want[i].real() && b[o + 1].at(i) == want[i].imag(), "multiply_add: element %zu of %zu", i, n);
                }
                for (auto& v : b) {
                    v.check_guards("multiply_add");
                }
                mc::transition();
                mc::states(1);
                mc::trace();
            }
        }
    });
}

// a convolver built on the backend
template<typename Convolver, typename F>
void streaming(char const* name)
{
    using C = std::complex<F>;
    for (std::size_t B : {2U, 4U, 8U}) {
        for (std::size_t P = 1; P <= 3; ++P) {
            scenario(name, {long(B), long(P)}, [&] {
                auto const h = cc::dense(B * P, 3);
                auto const m = cc::partition<C>(h, B, P);
                auto const n = (3 * P + 2) * B;
                for (std::size_t j = 0; j <= n; ++j) {
                    auto const x = j == n ? cc::dense(n, 2) : cc::basis(n, j);
                    auto const y = cc::stream(x, h);
                    Convolver conv{};
                    conv.filter(m.to_mdspan());
                    auto const tol = cc::tolerance<F>(x, h, 2 * B);
                    for (std::size_t b = 0; b < n / B; ++b) {
                        buffer<F> blk{B};
                        for (std::size_t i = 0; i < B; ++i) {
                            blk.at(i) = static_cast<F>(x[b * B + i]);
                        }
                        conv(blk.flat());
                        mc::transition();
                        for (std::size_t i = 0; i < B; ++i) {
                            mc::require(dist(real(blk.at(i)), y[b * B + i]) <= tol, "%s on %s: block %zu x %zu, input %zu: sample %zu", name, backend, B, P, j, b * B + i);
                        }
                    }
                    contract(name);
                    mc::states(1);
                    mc::trace();
                }
            });
        }
    }
}

void run()
{
    complex_plan<std::complex<float>>(0);
    complex_plan<std::complex<double>>(1);
    complex_plan<neo::scalar_complex<float>>(2);
    split<float>(0);
    split<double>(1);
    real_plan<float, std::complex<float>>(0);
    real_plan<double, std::complex<double>>(1);
    real_plan<float, neo::scalar_complex<float>>(2);
    length_plan<std::complex<float>>(0);
    length_plan<std::complex<double>>(1);
#if MC_PART == 0
    dct_plan<float>(0);
    dct_plan<double>(1);
#endif
    values<float>(0);
    values<double>(1);
    rejected();
    scaling<float, float>(0);
    scaling<double, double>(1);
    scaling<std::complex<float>, std::complex<float>>(2);
    scaling<std::complex<double>, std::complex<double>>(3);
    scaling<std::complex<float>, float>(4);
    scaling<std::complex<double>, double>(5);
    multiply_add<float>(0);
    multiply_add<double>(1);
    streaming<neo::convolution::upols_convolver<std::complex<float>>, float>("upols");
    streaming<neo::convolution::upola_convolver<std::complex<double>>, double>("upola");
    streaming<neo::convolution::split_upols_convolver<std::complex<float>>, float>("split_upols");
}

}  // namespace

MC_MAIN(run)
