// MC-TITLE: Transform plans are reusable and history-independent
// MC-TECH: all call sequences over {plan, its copy, a plan of another size} x {directions} x {inputs incl. NaN polluter} + {copy}, each call compared bit for bit with a fresh plan
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Quick: every sequence of up to 3 calls over an alphabet of up to 13 letters, for 19 plan types (float and double), two sizes each. Thorough: sequences of up to 4 calls over up to 19 letters.
// MC-ASSUME: single-threaded use; the library promises nothing about sharing one plan between threads
#include "fftcommon.hpp"

using namespace fc;
namespace nf = neo::fft;

namespace {

using bytes = std::vector<unsigned char>;

template<typename T>
void append(bytes& out, T const& v)
{
    auto const* p = reinterpret_cast<unsigned char const*>(&v);
    out.insert(out.end(), p, p + sizeof(T));
}

constexpr int num_values = 3;  // value 2 pollutes with NaN and is not compared

auto value(int which, std::size_t i) -> double
{
    switch (which) {
        case 0: return double(int((i * 7 + 3) % 13) - 6) / 4.0;
        case 1: return double(int((i * 5 + 1) % 11) - 4) * 1000.0;
        default: return std::numeric_limits<double>::quiet_NaN();
    }
}

/// make(size) -> Plan; run(plan, size, letter) -> bytes.  letters = num_values * ops.
template<typename Make, typename Run>
void histories(char const* name, long id, int ops, Make make, Run run)
{
    auto const letters = num_values * ops;
    // targets: 0 plan, 1 copy, 2 plan of the other size; last letter: copy := plan
    auto const alphabet = letters * 3 + 1;
    auto const depth    = mc::thorough() ? 4 : 3;
    for (int size = 0; size < 2; ++size) {
        for (int first = 0; first < alphabet; ++first) {
            mc::check(name, {id, size, first}, [&] {
                std::vector<bytes> want[2];
                for (int s = 0; s < 2; ++s) {
                    for (int l = 0; l < letters; ++l) {
                        auto p = make(s);
                        want[s].push_back(run(p, s, l));
                        if (l < 2 * ops) {
                            mc::outcome(hash_values(want[s].back()));
                        }
                    }
                }
                std::vector<int> seq{first};
                // depth-first over all sequences starting with `first`
                auto execute = [&](std::vector<int> const& q) {
                    auto plan  = make(size);
                    auto copy  = plan;
                    auto other = make(1 - size);
                    for (std::size_t i = 0; i < q.size(); ++i) {
                        mc::transition();
                        if (q[i] == alphabet - 1) {
                            copy = plan;
                            continue;
                        }
                        auto const target = q[i] / letters;
                        auto const letter = q[i] % letters;
                        auto const s      = target == 2 ? 1 - size : size;
                        auto& subject     = target == 0 ? plan : (target == 1 ? copy : other);
                        auto const got    = run(subject, s, letter);
                        if (letter >= 2 * ops) {
                            continue;
                        }
                        if (got != want[s][static_cast<std::size_t>(letter)]) {
                            std::string hist;
                            for (std::size_t k = 0; k <= i; ++k) {
                                hist += " " + (q[k] == alphabet - 1 ? std::string{"copy"} : mc::format("%s:op%d(value%d)", q[k] / letters == 0 ? "plan" : (q[k] / letters == 1 ? "copy" : "other"), (q[k] % letters) % ops, (q[k] % letters) / ops));
                            }
                            mc::fail("%s size %d: after the history%s the last call differs from a fresh plan's result", name, size, hist.c_str());
                        }
                    }
                    mc::trace();
                    mc::states(1);
                };
                auto dfs = [&](auto& self, int left) -> void {
                    if (left == 0) {
                        execute(seq);
                        return;
                    }
                    for (int l = 0; l < alphabet; ++l) {
                        seq.push_back(l);
                        self(self, left - 1);
                        seq.pop_back();
                    }
                };
                dfs(dfs, depth - 1);
                mc::sample("%s type=%ld size=%d: every history of %d calls starting with letter %d of %d", name, id, size, depth, first, alphabet);
            });
        }
    }
}

template<typename C, typename Plan>
void complex_plan(char const* name, long id, std::size_t o0, std::size_t o1)
{
    histories(
        name, id, 2, [=](int s) { return Plan{nf::from_order, s == 0 ? o0 : o1}; },
        [](Plan& p, int, int letter) {
            auto const n = std::size_t(p.size());
            std::vector<C> x(n);
            using F = typename C::value_type;
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = C{F(value(letter / 2, i)), F(value(letter / 2, i + 17))};
            }
            p(span1<C>{x.data(), ext1{n}}, letter % 2 == 0 ? nf::direction::forward : nf::direction::backward);
            bytes out;
            for (auto const& v : x) {
                append(out, v.real());
                append(out, v.imag());
            }
            return out;
        });
}

template<typename F>
void all(long id)
{
    using C = std::complex<F>;
#if MC_PART == 0
    complex_plan<C, nf::fft_plan<C>>("fft_plan", id, 3, 2);
    complex_plan<C, nf::c2c_dit2_plan<C, nf::kernel::c2c_dit2_v4>>("dit2_v4", id, 2, 4);
    complex_plan<C, nf::c2c_stockham_dif2r_plan<C>>("stockham_dif2r", id, 3, 2);
    complex_plan<C, nf::c2c_stockham_dif2i_plan<C>>("stockham_dif2i", id, 3, 2);
    complex_plan<C, nf::c2c_dif3_plan<C>>("dif3", id, 2, 1);
    complex_plan<C, nf::c2c_dif5_plan<C>>("dif5", id, 1, 2);
    complex_plan<C, nf::c2c_dit4_plan<C>>("dit4", id, 2, 1);
    complex_plan<C, nf::c2c_dif4_plan<C>>("dif4", id, 2, 1);
    complex_plan<C, nf::c2c_stockham_dif3_plan<C>>("stockham_dif3", id, 2, 1);
    complex_plan<C, nf::c2c_stockham_dif4_plan<C>>("stockham_dif4", id, 2, 1);
    complex_plan<C, nf::c2c_stockham_dif5_plan<C>>("stockham_dif5", id, 1, 2);
    complex_plan<C, nf::c2c_stockham_dif8_plan<C>>("stockham_dif8", id, 1, 2);
    complex_plan<C, nf::c2c_stockham_dit4_plan<C>>("stockham_dit4", id, 2, 1);
#else
    {
        using P = nf::split_fft_plan<F>;
        histories(
            "split_fft", id, 2, [](int s) { return P{nf::from_order, s == 0 ? std::size_t(3) : std::size_t(2)}; },
            [](P& p, int, int letter) {
                auto const n = std::size_t(p.size());
                std::vector<F> re(n), im(n), ore(n, F(3)), oim(n, F(4));
                for (std::size_t i = 0; i < n; ++i) {
                    re[i] = F(value(letter / 2, i));
                    im[i] = F(value(letter / 2, i + 17));
                }
                auto const r0 = re, i0 = im;
                auto v        = [&](auto& b) { return span1<F>{b.data(), ext1{n}}; };
                p(neo::split_complex{v(re), v(im)}, neo::split_complex{v(ore), v(oim)}, letter % 2 == 0 ? nf::direction::forward : nf::direction::backward);
                mc::require(std::memcmp(r0.data(), re.data(), n * sizeof(F)) == 0 && std::memcmp(i0.data(), im.data(), n * sizeof(F)) == 0, "split transform modified its input");
                bytes out;
                for (std::size_t i = 0; i < n; ++i) {
                    append(out, ore[i]);
                    append(out, oim[i]);
                }
                return out;
            });
    }
    {
        using P = nf::rfft_plan<F>;
        histories(
            "rfft", id, 2, [](int s) { return P{nf::from_order, s == 0 ? std::size_t(3) : std::size_t(4)}; },
            [](P& p, int, int letter) {
                auto const n = std::size_t(p.size());
                auto const m = n / 2 + 1;
                std::vector<F> x(n);
                std::vector<C> y(m);
                bytes out;
                if (letter % 2 == 0) {
                    for (std::size_t i = 0; i < n; ++i) {
                        x[i] = F(value(letter / 2, i));
                    }
                    auto const x0 = x;
                    nf::rfft(p, span1<F const>{x.data(), ext1{n}}, span1<C>{y.data(), ext1{m}});
                    mc::require(std::memcmp(x0.data(), x.data(), n * sizeof(F)) == 0, "rfft modified its input");
                    for (auto const& v : y) {
                        append(out, v.real());
                        append(out, v.imag());
                    }
                } else {
                    for (std::size_t i = 0; i < m; ++i) {
                        y[i] = C{F(value(letter / 2, i)), F(value(letter / 2, i + 17))};
                    }
                    auto const y0 = y;
                    nf::irfft(p, span1<C const>{y.data(), ext1{m}}, span1<F>{x.data(), ext1{n}});
                    mc::require(std::memcmp((void const*)y0.data(), (void const*)y.data(), m * sizeof(C)) == 0, "irfft modified its input");
                    for (auto const& v : x) {
                        append(out, v);
                    }
                }
                return out;
            });
    }
    {
        using P = nf::dft_plan<C>;
        for (auto [a, b] : {std::pair<std::size_t, std::size_t>{5, 3}, {6, 1}}) {
            histories(
                a == 5 ? "dft_5_3" : "dft_6_1", id, 2, [=](int s) { return P{s == 0 ? a : b}; },
                [](P& p, int, int letter) {
                    auto const n = std::size_t(p.size());
                    std::vector<C> x(n), y(n, C{9, 9});
                    for (std::size_t i = 0; i < n; ++i) {
                        x[i] = C{F(value(letter / 2, i)), F(value(letter / 2, i + 17))};
                    }
                    auto const x0 = x;
                    auto in       = span1<C const>{x.data(), ext1{n}};
                    auto outv     = span1<C>{y.data(), ext1{n}};
                    letter % 2 == 0 ? nf::dft(p, in, outv) : nf::idft(p, in, outv);
                    mc::require(std::memcmp((void const*)x0.data(), (void const*)x.data(), n * sizeof(C)) == 0, "dft modified its input");
                    bytes out;
                    for (auto const& v : y) {
                        append(out, v.real());
                        append(out, v.imag());
                    }
                    return out;
                });
        }
    }
    {
        using P = nf::fallback_dct2_plan<F>;
        histories(
            "dct2", id, 1, [](int s) { return P{nf::from_order, s == 0 ? std::size_t(3) : std::size_t(2)}; },
            [](P& p, int, int letter) {
                auto const n = std::size_t(p.size());
                std::vector<F> x(n);
                for (std::size_t i = 0; i < n; ++i) {
                    x[i] = F(value(letter, i));
                }
                p(span1<F>{x.data(), ext1{n}});
                bytes out;
                for (auto v : x) {
                    append(out, v);
                }
                return out;
            });
    }
    {
        using P = nf::stft_plan<F>;
        histories(
            "stft", id, 2,
            [](int s) {
                nf::stft_options<F> o{};
                o.frame_size     = s == 0 ? 4 : 8;
                o.transform_size = s == 0 ? 8 : 8;
                o.overlap_size   = s == 0 ? 0 : 4;
                return P{o};
            },
            [](P& p, int s, int letter) {
                // op 0: long signal, op 1: short one with a partial last frame
                auto const n = std::size_t(letter % 2 == 0 ? 16 : (s == 0 ? 6 : 10));
                std::vector<F> x(2 * n);
                for (std::size_t i = 0; i < 2 * n; ++i) {
                    x[i] = F(value(letter / 2, i));
                }
                auto const x0 = x;
                auto r        = p(Kokkos::mdspan<F const, ext2>{x.data(), ext2{2, n}});
                mc::require(std::memcmp(x0.data(), x.data(), 2 * n * sizeof(F)) == 0, "stft modified its input");
                bytes out;
                for (std::size_t a = 0; a < r.extent(0); ++a) {
                    for (std::size_t b = 0; b < r.extent(1); ++b) {
                        for (std::size_t c = 0; c < r.extent(2); ++c) {
                            append(out, r(a, b, c).real());
                            append(out, r(a, b, c).imag());
                        }
                    }
                }
                return out;
            });
    }
#endif
}

void run()
{
    all<float>(0);
    all<double>(1);
}

}  // namespace

MC_MAIN(run)
