// MC-TITLE: Audio unit and window functions match their formulas everywhere
// MC-TECH: exhaustive enumeration of a bit-level grid of all floating-point inputs (every exponent, leading mantissa bits and neighbours; thorough: every positive float) and of all table sizes and indices, compared with extended-precision formulas
// MC-QUICK: v3 sse2 v3rel
// MC-THOROUGH: gcc gccrel
// MC-PARTS: 2
// MC-BOUNDS: decibel: all signs and exponents x 2^12 leading mantissas x neighbours x 8 floors (thorough in release: all 2^31 positive floats), float/double, both precisions. fast_log2/fast_log10: all exponents x 2^12 mantissas x neighbours. Mel: 0..200000 Hz in 1 Hz steps plus a geometric ladder, tables of 0..64 (thorough 300) and 128..66000 entries for 49 band pairs. A-weighting: geometric ladder over 2^-30..2^30 Hz with 200 points per octave. Windows: all sizes 1..260 (thorough 1500) and 15 sizes from 511 to 70001, all indices, four index types, vectors contiguous and strided. Frequency tables: the same sizes, all indices, six sample rates. float/double.
// MC-ASSUME: no NaN inputs; mel arguments are non-negative; A-weighting frequencies are positive with squares in range; the fast decibel variant for normal floats
#include "indexed.hpp"
#include "model.hpp"

#include <neo/fft/rfftfreq.hpp>
#include <neo/math.hpp>
#include <neo/unit.hpp>

#include <string_view>

using namespace model;

namespace {

bool release() { return std::string_view{MC_CONFIG}.find("rel") != std::string_view::npos; }

auto as_float(std::uint32_t u) -> float
{
    float f;
    std::memcpy(&f, &u, 4);
    return f;
}

/// the decibel value in extended precision
auto db(real g) -> real { return 20 * std::log10(g); }

template<typename F>
void decibel_one(F gain, real exact)
{
    using L = std::numeric_limits<F>;
    auto const got = neo::amplitude_to_db(gain, F(-1e6));
    if (gain <= 0) {
        mc::require(got == F(-1e6), "amplitude_to_db(%g) is %.12g, expected the floor", double(gain), double(got));
    } else if (std::isinf(gain)) {
        mc::require(std::isinf(got) && got > 0, "amplitude_to_db(inf) is %g", double(got));
    } else {
        mc::require(dist(got, exact) <= 3 * eps<F>() * std::abs(exact), "amplitude_to_db(%.12g) is %.12g, expected %.12Lg", double(gain), double(got), exact);
    }
    (void)sizeof(L);
}

template<typename F>
void fast_one(F gain, real exact)
{
    auto const got = neo::amplitude_to_db<neo::precision::estimate>(gain, F(-1e6));
    if (gain <= 0) {
        mc::require(got == F(-1e6), "fast amplitude_to_db(%g) is %.12g, expected the floor", double(gain), double(got));
    } else {
        mc::require(dist(got, exact) <= 0.005L, "fast amplitude_to_db(%.12g) is %.12g, expected %.12Lg", double(gain), double(got), exact);
    }
}

template<typename F>
void floors(F gain)
{
    for (auto floor : {F(-144), F(-100), F(-60), F(-20), F(0), F(10), F(-300), -std::numeric_limits<F>::infinity()}) {
        auto const exact = gain > 0 ? std::max(real(floor), db(real(gain))) : real(floor);
        auto const acc   = neo::amplitude_to_db(gain, floor);
        auto const acc2  = neo::amplitude_to_db<neo::precision::accurate>(gain, floor);
        auto const est   = neo::amplitude_to_db<neo::precision::estimate>(gain, floor);
        auto ok = [&](F got, real tol) { return std::isinf(exact) ? real(got) == exact : dist(got, exact) <= tol; };
        mc::require(ok(acc, 3 * eps<F>() * std::abs(exact)) && acc2 == acc, "amplitude_to_db(%.9g, %g) is %.9g, expected %.9Lg", double(gain), double(floor), double(acc), exact);
        mc::require(acc >= floor && est >= floor, "amplitude_to_db(%.9g, %g) fell below the floor", double(gain), double(floor));
        mc::require(ok(est, 0.005L), "fast amplitude_to_db(%.9g, %g) is %.9g, expected %.9Lg", double(gain), double(floor), double(est), exact);
        if (floor == F(-144)) {
            mc::require(neo::amplitude_to_db(gain) == acc && neo::amplitude_to_db<neo::precision::estimate>(gain) == est, "default floor for gain %g", double(gain));
        }
        mc::transition(5);
    }
    mc::states(8);
    mc::trace(8);
}

void decibels()
{
    for (long e = 0; e < 256; ++e) {
        mc::check("decibel", {e}, [&] {
            for (std::uint32_t m = 0; m < (release() ? 4096U : 1024U); ++m) {
                for (std::uint32_t low : {0U, 1U, 0x7ffU}) {
                    auto const u = (std::uint32_t(e) << 23) | (m << (release() ? 11 : 13)) | low;
                    auto const f = as_float(u);
                    if (std::isnan(f)) {
                        continue;
                    }
                    auto const exact = db(real(f));
                    decibel_one<float>(f, exact);
                    decibel_one<float>(-f, 0);
                    decibel_one<double>(double(f), exact);
                    decibel_one<double>(-double(f), 0);
                    auto const wide = double(f) * (1 + double(low) * 1e-12);
                    decibel_one<double>(wide, db(real(wide)));
                    fast_one<float>(-f, 0);
                    if (e > 0 && e < 255) {
                        fast_one<float>(f, exact);
                        fast_one<double>(double(f), exact);
                        mc::require(dist(neo::fast_log2(f), exact / 20 * std::log2(10.0L)) <= 0.0003L, "fast_log2(%.9g) is %.9g", double(f), double(neo::fast_log2(f)));
                        mc::require(dist(neo::fast_log10(f), exact / 20) <= 0.0001L, "fast_log10(%.9g) is %.9g", double(f), double(neo::fast_log10(f)));
                        mc::transition(4);
                    }
                    mc::states(3);
                    mc::transition(6);
                    mc::trace(3);
                }
            }
            if (e > 0 && e < 255) {
                for (std::uint32_t m = 0; m < 32; ++m) {
                    auto const f = as_float((std::uint32_t(e) << 23) | (m << 18));
                    floors<float>(f);
                    floors<float>(-f);
                    floors<double>(f);
                    floors<double>(-double(f));
                }
            }
        });
    }
    mc::check("decibel-special", {}, [] {
        for (auto floor : {-144.0, -60.0, 0.0}) {
            mc::require(neo::amplitude_to_db(0.0, floor) == floor && neo::amplitude_to_db(-0.0, floor) == floor, "gain zero");
            mc::require(neo::amplitude_to_db<neo::precision::estimate>(0.0, floor) == floor && neo::amplitude_to_db<neo::precision::estimate>(-0.0F, float(floor)) == float(floor), "gain zero, fast");
            mc::require(neo::amplitude_to_db(-std::numeric_limits<double>::infinity(), floor) == floor, "gain -infinity");
        }
        mc::require(neo::amplitude_to_db(0.0F) == -144.0F && neo::amplitude_to_db(0.0) == -144.0 && neo::amplitude_to_db<neo::precision::estimate>(0.0F) == -144.0F, "default floor");
        mc::require(neo::amplitude_to_db(1.0F) == 0.0F && neo::amplitude_to_db(1.0) == 0.0, "unit gain");
        for (int e = -1022; e <= 1023; ++e) {
            for (int m = 0; m < 64; ++m) {
                auto const d = std::ldexp(1 + m / 64.0, e);
                decibel_one<double>(d, db(real(d)));
                decibel_one<double>(-d, 0);
                mc::states(2);
                mc::transition(2);
                mc::trace(2);
            }
        }
    });
    if (mc::thorough() && release()) {
        for (std::uint32_t e = 0; e < 255; ++e) {
            mc::check("decibel-all", {long(e)}, [&] {
                for (std::uint32_t m = 0; m < (1U << 23); ++m) {
                    auto const f     = as_float((e << 23) | m);
                    auto const exact = 20 * std::log10(double(f));
                    auto const got   = neo::amplitude_to_db(f, -1e6F);
                    auto const fast  = neo::amplitude_to_db<neo::precision::estimate>(f, -1e6F);
                    if (f > 0 && (!(std::abs(got - exact) <= 3.01 * 1.1920929e-7 * std::abs(exact)) || (e > 0 && !(std::abs(fast - exact) <= 0.005)))) {
                        decibel_one<float>(f, db(real(f)));
                        fast_one<float>(f, db(real(f)));
                        mc::fail("amplitude_to_db(%.9g) is %.9g, fast %.9g, expected %.9g", double(f), double(got), double(fast), exact);
                    }
                }
                mc::states(1U << 23);
                mc::transition(2U << 23);
                mc::trace(1U << 23);
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
auto mel(real hz) -> real { return 2595 * std::log10(1 + hz / 700); }
auto hertz(real m) -> real { return 700 * (std::pow(10.0L, m / 2595) - 1); }

template<typename F>
auto mel_tol(real hz) -> real
{
    return eps<F>() * (6 * 1127 + 4 * mel(hz));
}
template<typename F>
auto hertz_tol(real m) -> real
{
    return eps<F>() * (700 + hertz(m)) * (6 + m / 1127 * 3);
}

template<typename F>
void mels(long id)
{
    for (long slice = 0; slice < 10; ++slice) {
        mc::check("mel", {id, slice}, [&] {
            auto prev = F(-1), prevh = F(-1);
            for (long hz = slice * 20000; hz <= (slice + 1) * 20000; ++hz) {
                for (int part = 0; part < 2; ++part) {
                    auto const f = F(hz) + F(part) * F(0.375);
                    auto const m = neo::hertz_to_mel(f);
                    mc::require(dist(m, mel(real(f))) <= mel_tol<F>(real(f)), "hertz_to_mel(%.9g) is %.9g, expected %.9Lg", double(f), double(m), mel(real(f)));
                    auto const back = neo::mel_to_hertz(m);
                    auto const slope = (700 + real(f)) / 1127;
                    mc::require(dist(back, real(f)) <= slope * mel_tol<F>(real(f)) + hertz_tol<F>(real(m)), "mel_to_hertz(hertz_to_mel(%.9g)) is %.9g", double(f), double(back));
                    mc::states(1);
                    mc::transition(2);
                    mc::trace();
                    if (part == 0 && hz % 8 == 0) {
                        mc::require(m > prev && back > prevh, "the mel scale is not increasing at %.9g Hz", double(f));
                        prev  = m;
                        prevh = back;
                    }
                }
            }
        });
    }
    mc::check("mel-inverse", {id}, [] {
        auto prev = F(-1);
        for (long k = 0; k <= 60000; ++k) {
            auto const m = F(k) / F(8);
            auto const h = neo::mel_to_hertz(m);
            mc::require(dist(h, hertz(real(m))) <= hertz_tol<F>(real(m)), "mel_to_hertz(%.9g) is %.9g, expected %.9Lg", double(m), double(h), hertz(real(m)));
            auto const back = neo::hertz_to_mel(h);
            auto const slope = 1127 / (700 + real(h));
            mc::require(dist(back, real(m)) <= slope * hertz_tol<F>(real(m)) + mel_tol<F>(real(h)), "hertz_to_mel(mel_to_hertz(%.9g)) is %.9g", double(m), double(back));
            mc::require(h > prev, "mel_to_hertz is not increasing at %.9g", double(m));
            prev = h;
        }
        mc::require(neo::hertz_to_mel(F(0)) == F(0) && neo::mel_to_hertz(F(0)) == F(0), "zero");
        for (real h = 1e-3L; h < 1e7L; h *= 1.003L) {
            auto const f = F(h);
            mc::require(dist(neo::hertz_to_mel(f), mel(real(f))) <= mel_tol<F>(real(f)), "hertz_to_mel(%.9g) is %.9g", double(f), double(neo::hertz_to_mel(f)));
            mc::states(1);
        }
        mc::states(60001);
        mc::transition(130000);
        mc::trace(60001);
    });
    auto const limit = std::size_t(mc::thorough() ? 300 : 64);
    std::vector<std::size_t> tables;
    for (std::size_t n = 0; n <= limit; ++n) {
        tables.push_back(n);
    }
    tables.insert(tables.end(), {128, 255, 256, 257, 1000, 4097, 33000, 66000});
    for (auto n : tables) {
        mc::check("mel-table", {id, long(n)}, [&] {
            real const edges[] = {0, 20, 100, 440, 4000, 11025, 22050};
            for (auto lo : edges) {
                for (auto hi : edges) {
                    if (n > 2000 && (lo == hi || lo > 100)) {
                        continue;
                    }
                    for (std::size_t stride : {1, 3}) {
                        buffer<F> b{n, stride};
                        auto run = [&](auto out) { neo::mel_frequencies(out, F(lo), F(hi)); };
                        if (stride == 1) {
                            run(b.flat());
                        } else {
                            run(b.strided());
                        }
                        b.check_guards("mel_frequencies");
                        for (std::size_t i = 0; i < n; ++i) {
                            auto const m    = n == 1 ? mel(lo) : mel(lo) + (mel(hi) - mel(lo)) * real(i) / real(n - 1);
                            auto const want = n == 1 ? lo : hertz(m);
                            auto const top  = std::max(lo, hi);
                            auto const tol  = hertz_tol<F>(m) + (700 + want) / 1127 * (mel_tol<F>(top) + eps<F>() * mel(top) * 4);
                            mc::require(dist(b.at(i), want) <= tol, "mel_frequencies(%zu entries, %Lg..%Lg)[%zu] is %.9g, expected %.9Lg", n, lo, hi, i, double(b.at(i)), want);
                            mc::states(1);
                        }
                        mc::transition();
                        mc::trace();
                    }
                }
            }
        });
    }
}

template<typename F>
void weighting(long id)
{
    for (long octave = -30; octave < 30; ++octave) {
        mc::check("a-weighting", {id, octave}, [&] {
            for (int k = 0; k < 200; ++k) {
                auto const f = F(std::pow(2.0L, real(octave) + real(k) / 200));
                auto const q = real(f) * real(f);
                auto sq      = [](real v) { return v * v; };
                auto const ra = sq(12194.217L) * q * q / ((q + sq(20.598997L)) * std::sqrt((q + sq(107.65265L)) * (q + sq(737.86223L))) * (q + sq(12194.217L)));
                auto const want = 20 * std::log10(ra) + 2;
                auto const got  = neo::a_weighting(f);
                mc::require(dist(got, want) <= eps<F>() * (1200 + 4 * std::abs(want)), "a_weighting(%.9g) is %.9g, expected %.9Lg", double(f), double(got), want);
                mc::states(1);
                mc::transition();
                mc::trace();
            }
        });
    }
}

// ---------------------------------------------------------------------------------------------------------------
template<typename F>
void windows(long id)
{
    auto const limit = std::size_t(mc::thorough() ? 1500 : 260);
    std::vector<std::size_t> sizes;
    for (std::size_t n = 1; n <= limit; ++n) {
        sizes.push_back(n);
    }
    sizes.insert(sizes.end(), {511, 512, 513, 1000, 1024, 2049, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70001});
    for (auto n : sizes) {
        mc::check("windows", {id, long(n)}, [&] {
            auto want = [&](int kind, std::size_t i) -> real {
                if (kind == 0 || n == 1) {
                    return 1;
                }
                auto const c = root(long(n - 1), long(i)).real();
                return kind == 1 ? 0.5L - 0.5L * c : 0.54L - 0.46L * c;
            };
            auto near = [&](char const* how, int kind, std::size_t i, F got) {
                mc::require(dist(got, want(kind, i)) <= 14 * eps<F>(), "%s window kind %d of %zu samples: value %zu is %.9g, expected %.9Lg", how, kind, n, i, double(got), want(kind, i));
            };
            auto const hann = neo::hann_window<F>{};
            auto const hamm = neo::hamming_window<F>{};
            auto const rect = neo::rectangular_window<F>{};
            for (std::size_t i = 0; i < n; ++i) {
                near("size_t", 0, i, rect(i, n));
                near("size_t", 1, i, hann(i, n));
                near("size_t", 2, i, hamm(i, n));
                near("int", 1, i, hann(int(i), int(n)));
                near("int", 2, i, hamm(int(i), int(n)));
                near("mixed", 1, i, hann(unsigned(i), long(n)));
                near("mixed", 2, i, hamm(long(i), unsigned(n)));
                if (n < 32768) {
                    near("short", 1, i, hann(short(i), short(n)));
                }
            }
            auto fill = [&](int kind, auto window) {
                for (std::size_t stride : {1, 2}) {
                    buffer<F> b{n, stride};
                    if (stride == 1) {
                        neo::fill_window(b.flat(), window);
                    } else {
                        neo::fill_window(b.strided(), window);
                    }
                    b.check_guards("fill_window");
                    for (std::size_t i = 0; i < n; ++i) {
                        near("filled", kind, i, b.at(i));
                    }
                }
                if (n <= 300 || n > 30000) {
                    indexed::for_types([&]<typename I>(long, std::size_t most) {
                        if (n > most) {
                            return;
                        }
                        std::vector<F> b(n + 1, F(77));
                        neo::fill_window(indexed::flat<I>(b.data(), n), window);
                        mc::require(b[n] == F(77), "fill_window over %zu samples wrote behind them", n);
                        for (std::size_t i = 0; i < n; ++i) {
                            near("filled, other extents", kind, i, b[i]);
                        }
                    });
                }
            };
            fill(0, rect);
            fill(1, hann);
            fill(2, hamm);
            auto gen = [&](int kind, auto w) {
                mc::require(w.extent(0) == n, "generate_window(%zu) has %zu samples", n, std::size_t(w.extent(0)));
                for (std::size_t i = 0; i < n; ++i) {
                    near("generated", kind, i, w(i));
                }
            };
            gen(1, neo::generate_window<F>(n));
            gen(0, neo::generate_window<F, neo::rectangular_window<F>>(n));
            gen(1, neo::generate_window<F, neo::hann_window<F>>(n));
            gen(2, neo::generate_window<F, neo::hamming_window<F>>(n));
            mc::states(3 * n);
            mc::transition(8 * n + 10);
            mc::trace(10);
        });
    }
    mc::check("custom-window", {id}, [] {
        for (std::size_t n = 0; n <= 40; ++n) {
            buffer<F> b{n, 2};
            neo::fill_window(b.strided(), [&](auto i, auto size) {
                mc::require(std::size_t(size) == n, "a window function was given size %zu instead of %zu", std::size_t(size), n);
                return F(i * 3 + 1);
            });
            b.check_guards("fill_window");
            for (std::size_t i = 0; i < n; ++i) {
                mc::require(b.at(i) == F(i * 3 + 1), "a window function's value for index %zu arrived elsewhere", i);
            }
            mc::states(1);
            mc::transition();
            mc::trace();
        }
    });
    for (auto n : sizes) {
        mc::check("frequency-table", {id, long(n)}, [&] {
            for (real fs : {1.0L, 8000.0L, 44100.0L, 48000.0L, 96000.0L, 192000.0L}) {
                auto const inv = double(1 / fs);
                auto want      = [&](std::size_t i) { return real(i) / real(n) / real(inv); };
                auto near      = [&](char const* how, std::size_t i, F got) {
                    mc::require(dist(got, want(i)) <= 6 * eps<F>() * want(i), "%s of %zu points at %Lg Hz: entry %zu is %.9g, expected %.9Lg", how, n, fs, i, double(got), want(i));
                };
                for (std::size_t i = 0; i <= n; ++i) {
                    near("rfftfreq", i, neo::rfftfreq<F>(n, i, inv));
                    near("rfftfreq(int)", i, neo::rfftfreq<F>(int(n), int(i), inv));
                    if (n > 65535) {
                        continue;
                    }
                    near("rfftfreq(mixed)", i, neo::rfftfreq<F>(std::uint16_t(n), long(i), inv));
                }
                for (std::size_t stride : {1, 2}) {
                    buffer<F> b{n, stride};
                    if (stride == 1) {
                        neo::rfftfreq(b.flat(), inv);
                    } else {
                        neo::rfftfreq(b.strided(), inv);
                    }
                    b.check_guards("rfftfreq");
                    for (std::size_t i = 0; i < n; ++i) {
                        near("frequency table", i, b.at(i));
                    }
                }
                if (n <= 300 || n > 30000) {
                    indexed::for_types([&]<typename I>(long, std::size_t most) {
                        if (n > most) {
                            return;
                        }
                        std::vector<F> b(n + 1, F(77));
                        neo::rfftfreq(indexed::flat<I>(b.data(), n), inv);
                        mc::require(b[n] == F(77), "rfftfreq over %zu samples wrote behind them", n);
                        for (std::size_t i = 0; i < n; ++i) {
                            near("frequency table, other extents", i, b[i]);
                        }
                    });
                }
                mc::states(n);
                mc::transition(3 * n + 2);
                mc::trace(2);
            }
        });
    }
}

void run()
{
    if (MC_PART == 0) {
        decibels();
    }
    if (MC_PART == 1) {
        mels<float>(0);
        mels<double>(1);
        weighting<float>(0);
        weighting<double>(1);
        windows<float>(0);
        windows<double>(1);
    }
    mc::sample("decibel, mel, A-weighting, windows, frequency tables");
}

}  // namespace

MC_MAIN(run)
