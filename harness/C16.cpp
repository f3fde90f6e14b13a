// MC-TITLE: Statistics and normalisation compute their definitions for every shape
// MC-TECH: every shape and layout within bounds x every word over a small value alphabet (tiny shapes) and dense values (all shapes), compared with extended-precision definitions
// MC-QUICK: v3 sse2
// MC-THOROUGH: neon gcc avx512 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Vectors of 0..33 elements (contiguous and strided), matrices 0..5 x 0..6 in four layouts (thorough 0..80 and 0..9 x 0..12), every word over {0,1,-1,0.5,-3} for up to 4 elements as vector and as every matrix shape (thorough 6), dense values at four scales, and with peak, energy, mean or deviation at eleven distances from one; long vectors to 70001 and matrices to 2x40000, 5000x2; pairs of operands in different layouts; extents counted in seven integer types up to the largest they can count; real and complex elements; silent channels in every position among one to four channels; float/double.
// MC-ASSUME: magnitudes whose squares and reciprocals neither overflow nor underflow
#include "indexed.hpp"
#include "model.hpp"

#include <neo/algorithm/mean.hpp>
#include <neo/algorithm/mean_squared_error.hpp>
#include <neo/algorithm/normalize_energy.hpp>
#include <neo/algorithm/normalize_peak.hpp>
#include <neo/algorithm/root_mean_squared_error.hpp>
#include <neo/algorithm/standard_deviation.hpp>
#include <neo/algorithm/variance.hpp>
#include <neo/complex/scalar_complex.hpp>
#include <neo/convolution/normalize_impulse.hpp>

using namespace model;

namespace {

template<typename F>
struct explorer
{
    long id;

    struct expected
    {
        rvec x;
        real mean{0}, var{0}, peak{0}, energy{0}, l1{0};
        explicit expected(rvec v) : x{std::move(v)}
        {
            auto const n = real(x.size());
            for (auto a : x) {
                mean += a / n;
                peak = std::max(peak, std::abs(a));
                energy += a * a;
                l1 += std::abs(a);
            }
            for (auto a : x) {
                var += (a - mean) * (a - mean) / n;
            }
        }
    };

    static void near(char const* what, std::string const& where, real got, real want, real tol)
    {
        if (dist(got, want) > tol) {
            mc::fail("%s of %s is %.12Lg, expected %.12Lg (tolerance %Lg)", what, where.c_str(), got, want, tol);
        }
    }

    /// `view` yields an mdspan over the current storage, `read(i)` reads element i (row major)
    template<typename View, typename Read, typename Restore, typename Guards>
    void object(rvec const& x, std::string const& where, View view, Read read, Restore restore, Guards guards)
    {
        auto const e = expected{x};
        auto const n = x.size();
        auto const N = eps<F>() * real(n + 4);
        auto const tiny = std::numeric_limits<F>::min();
        view([&](auto v) {
            auto const m = neo::mean(v);
            mc::require(m.has_value() == (n >= 1), "mean of %s: %s", where.c_str(), m ? "present" : "absent");
            if (m) {
                near("mean", where, *m, e.mean, N * (e.l1 / real(n)) + tiny);
                near("mean_unchecked", where, neo::mean_unchecked(v), e.mean, N * (e.l1 / real(n)) + tiny);
            }
            auto const var = neo::variance(v);
            auto const sd  = neo::standard_deviation(v);
            mc::require(var.has_value() == (n >= 2) && sd.has_value() == (n >= 2), "variance/standard deviation of %s: %s/%s", where.c_str(), var ? "present" : "absent", sd ? "present" : "absent");
            if (var) {
                auto const t = 8 * N * (e.var + e.l1 / real(n) * std::sqrt(e.var)) + 16 * N * N * (e.l1 / real(n)) * (e.l1 / real(n)) + tiny;
                near("variance", where, *var, e.var, t);
                mc::require(*sd >= F(0), "standard deviation of %s is negative", where.c_str());
                near("squared standard deviation", where, real(*sd) * real(*sd), e.var, t + 4 * eps<F>() * e.var);
            }
        });
        // normalisations change the storage
        for (int which = 0; which < 2; ++which) {
            restore();
            auto const factor = which == 0 ? (e.peak > 0 ? 1 / e.peak : 1) : (e.energy > 0 ? 1 / std::sqrt(e.energy) : 1);
            auto const what   = which == 0 ? "normalize_peak" : "normalize_energy";
            view([&](auto v) {
                near(what, where + " (factor)", which == 0 ? neo::normalize_peak_factor(v) : neo::normalize_energy_factor(v), factor, (N + 4 * eps<F>()) * factor);
                if (which == 0) {
                    neo::normalize_peak(v);
                } else {
                    neo::normalize_energy(v);
                }
            });
            for (std::size_t i = 0; i < n; ++i) {
                near(what, where + mc::format(" element %zu", i), read(i), x[i] * factor, (N + 6 * eps<F>()) * std::abs(x[i]) * factor);
            }
            guards(what);
            mc::transition(2);
        }
        restore();
        mc::transition(4);
        mc::states(1);
        mc::trace();
        mc::outcome(mc::hasher{}.add(id).bytes(where.data(), where.size()).add(real(e.var)).h);
    }

    /// extents counted in other types, up to the largest each can count
    void index_types()
    {
        indexed::for_types([&]<typename I>(long type, std::size_t most) {
            for (auto n : indexed::sizes(most)) {
                mc::check("indexed", {id, type, long(n)}, [&] {
                    auto const x = values(n, 3);
                    std::vector<F> mem(n + 1), other(n + 1);
                    auto restore = [&] {
                        for (std::size_t i = 0; i < n; ++i) {
                            mem[i]   = static_cast<F>(x[i]);
                            other[i] = static_cast<F>(x[n - 1 - i]);
                        }
                        mem[n] = F(77);
                    };
                    restore();
                    auto const guards = [&](char const* what) { mc::require(mem[n] == F(77), "%s of %zu elements wrote behind them", what, n); };
                    auto const read   = [&](std::size_t i) { return real(mem[i]); };
                    object(x, mc::format("vector of %zu, index type %ld", n, type), [&](auto fn) { fn(indexed::flat<I>(mem.data(), n)); }, read, restore, guards);
                    object(x, mc::format("vector of %zu, stride 1, index type %ld", n, type), [&](auto fn) { fn(indexed::strided<I>(mem.data(), n, 1)); }, read, restore, guards);
                    if (n > 0) {
                        real want = 0;
                        for (std::size_t i = 0; i < n; ++i) {
                            want += (x[i] - x[n - 1 - i]) * (x[i] - x[n - 1 - i]) / real(n);
                        }
                        near("mean squared error", mc::format("%zu elements, index type %ld", n, type), neo::mean_squared_error(indexed::flat<I>(mem.data(), n), indexed::flat<std::size_t>(other.data(), n)), want, eps<F>() * real(n + 8) * (want + 1));
                        near("mean squared error", mc::format("%zu elements, index type %ld", n, type), neo::mean_squared_error(indexed::flat<I>(other.data(), n), indexed::flat<I>(mem.data(), n)), want, eps<F>() * real(n + 8) * (want + 1));
                    }
                });
            }
            for (auto [r, c] : indexed::shapes(most)) {
                mc::check("indexed2", {id, type, long(r), long(c)}, [&, r = r, c = c] {
                    auto const x = values(r * c, 4);
                    std::vector<F> mem(r * c);
                    auto restore = [&] {
                        for (std::size_t i = 0; i < r * c; ++i) {
                            mem[i] = static_cast<F>(x[i]);
                        }
                    };
                    restore();
                    object(x, mc::format("matrix %zux%zu, index type %ld", r, c, type), [&](auto fn) { fn(indexed::matrix<I>(mem.data(), r, c)); }, [&](std::size_t i) { return real(mem[i]); }, restore, [](char const*) {});
                    real e = 0;
                    for (std::size_t i = 0; i < r; ++i) {
                        real s = 0;
                        for (std::size_t j = 0; j < c; ++j) {
                            s += x[i * c + j] * x[i * c + j];
                        }
                        e = std::max(e, s);
                    }
                    neo::convolution::normalize_impulse(indexed::matrix<I>(mem.data(), r, c));
                    for (std::size_t i = 0; i < r * c; ++i) {
                        near("normalize_impulse", mc::format("matrix %zux%zu element %zu, index type %ld", r, c, i, type), mem[i], e > 0 ? x[i] / std::sqrt(e) : x[i], eps<F>() * real(c + 12) * (e > 0 ? std::abs(x[i]) / std::sqrt(e) : 1));
                    }
                });
            }
        });
    }

    static auto at_scale(rvec x, int s) -> rvec
    {
        static constexpr real k[] = {1, 1e-12L, 1e12L, 3};
        for (auto& v : x) {
            v = static_cast<F>(v * k[s]);
        }
        return x;
    }
    static auto values(std::size_t n, int salt) -> rvec
    {
        rvec x(n);
        for (std::size_t i = 0; i < n; ++i) {
            x[i] = static_cast<F>(real(long((i * 37 + std::size_t(salt) * 13 + 5) % 101) - 50) / 7);
        }
        return x;
    }

    void vector(rvec const& x, std::size_t stride, std::string const& label)
    {
        buffer<F> b{x.size(), stride};
        auto restore = [&] {
            for (std::size_t i = 0; i < x.size(); ++i) {
                b.at(i) = static_cast<F>(x[i]);
            }
        };
        restore();
        object(
            x, mc::format("vector of %zu (%s)", x.size(), label.c_str()),
            [&](auto fn) {
                if (stride == 1) {
                    fn(b.flat());
                } else {
                    fn(b.strided());
                }
            },
            [&](std::size_t i) { return b.at(i); }, restore, [&](char const* w) { b.check_guards(w); });
        // impulse normalisation of a mono signal is energy normalisation
        neo::convolution::normalize_impulse(b.strided());
        auto const e = expected{x};
        auto const f = e.energy > 0 ? 1 / std::sqrt(e.energy) : 1;
        for (std::size_t i = 0; i < x.size(); ++i) {
            near("normalize_impulse", mc::format("vector element %zu of %zu", i, x.size()), b.at(i), x[i] * f, eps<F>() * real(x.size() + 10) * std::abs(x[i]) * f);
        }
        b.check_guards("normalize_impulse");
    }

    void matrix(rvec const& x, std::size_t r, std::size_t c, int layout, std::string const& label)
    {
        auto b       = make2<F>(layout, r, c);
        auto restore = [&] {
            for (std::size_t i = 0; i < r * c; ++i) {
                b.at(i / c, i % c) = static_cast<F>(x[i]);
            }
        };
        restore();
        object(
            x, mc::format("%zux%zu matrix, layout %d (%s)", r, c, layout, label.c_str()), [&](auto fn) { with_view2(layout, b, fn); }, [&](std::size_t i) { return b.at(i / c, i % c); }, restore,
            [&](char const* w) { b.check_guards(w); });
        with_view2(layout, b, [&](auto v) { neo::convolution::normalize_impulse(v); });
        real loudest = 0;
        for (std::size_t i = 0; i < r; ++i) {
            real s = 0;
            for (std::size_t j = 0; j < c; ++j) {
                s += x[i * c + j] * x[i * c + j];
            }
            loudest = std::max(loudest, s);
        }
        auto const f = loudest > 0 ? 1 / std::sqrt(loudest) : 1;
        for (std::size_t i = 0; i < r * c; ++i) {
            near("normalize_impulse", mc::format("%zux%zu matrix (%s), element (%zu,%zu)", r, c, label.c_str(), i / c, i % c), b.at(i / c, i % c), x[i] * f, eps<F>() * real(c + 10) * std::abs(x[i]) * f);
        }
        b.check_guards("normalize_impulse");
    }

    template<typename A, typename B, typename Va, typename Vb>
    void error(char const* where, std::size_t n, A a, B b, Va va, Vb vb)
    {
        real mse = 0, mag = 0;
        for (std::size_t i = 0; i < n; ++i) {
            auto const d = a(i) - b(i);
            mse += d * d / real(n);
            mag += (std::abs(a(i)) + std::abs(b(i))) * (std::abs(a(i)) + std::abs(b(i))) / real(n);
        }
        auto const t = eps<F>() * real(n + 16) * mag;
        va([&](auto x) {
            vb([&](auto y) {
                near("mean_squared_error", where, neo::mean_squared_error(x, y), mse, t);
                auto const r = real(neo::root_mean_squared_error(x, y));
                mc::require(r >= 0, "root_mean_squared_error of %s is negative", where);
                near("squared root_mean_squared_error", where, r * r, mse, t + 4 * eps<F>() * mse);
            });
        });
        mc::transition(2);
        mc::states(1);
        mc::trace();
    }

    void errors()
    {
        using C = std::complex<F>;
        std::vector<std::size_t> sizes;
        for (std::size_t n = 1; n <= (mc::thorough() ? 80U : 33U); ++n) {
            sizes.push_back(n);
        }
        sizes.insert(sizes.end(), {100, 255, 256, 257, 1000, 4097, 65537});
        for (auto n : sizes) {
            mc::check("mse", {id, long(n)}, [&] {
                for (std::size_t sa : {1, 2}) {
                    for (std::size_t sb : {1, 3}) {
                        if (n > 1000 && sa != sb) {
                            continue;
                        }
                        buffer<F> a{n, sa}, b{n, sb};
                        buffer<C> ca{n, sa}, cb{n, sb};
                        auto const v1 = values(n, 1), v2 = values(n, 2);
                        // a difference at every single position, and everywhere
                        for (std::size_t p = 0; p <= n; ++p) {
                            if (n > 100 && p != 0 && p != n && p + 1 != n && p != n / 2) {
                                continue;
                            }
                            for (std::size_t i = 0; i < n; ++i) {
                                a.at(i)  = static_cast<F>(v1[i]);
                                b.at(i)  = p == n ? static_cast<F>(v2[i]) : (i == p ? a.at(i) + F(3) : a.at(i));
                                ca.at(i) = C{a.at(i), F(i % 5) - 2};
                                cb.at(i) = p == n ? C{b.at(i), F(i % 3)} : (i == p ? C{a.at(i), F(4)} : ca.at(i));
                            }
                            auto v = [&](auto& buf, std::size_t s) {
                                return [&buf, s](auto fn) {
                                    if (s == 1) {
                                        fn(buf.cflat());
                                    } else {
                                        fn(buf.cstrided());
                                    }
                                };
                            };
                            error("vectors", n, [&](std::size_t i) { return real(a.at(i)); }, [&](std::size_t i) { return real(b.at(i)); }, v(a, sa), v(b, sb));
                            error("complex vectors", n, [&](std::size_t i) { return std::abs(lift(ca.at(i))); }, [&](std::size_t i) { return std::abs(lift(cb.at(i))); }, v(ca, sa), v(cb, sb));
                            // same magnitude, different phase: no error
                            for (std::size_t i = 0; i < n; ++i) {
                                cb.at(i) = C{-ca.at(i).imag(), ca.at(i).real()};
                            }
                            error("rotated complex vectors", n, [&](std::size_t) { return real(0); }, [&](std::size_t) { return real(0); }, v(ca, 1 * sa), v(cb, sb));
                        }
                    }
                }
            });
        }
        for (std::size_t r = 1; r <= 4; ++r) {
            for (std::size_t c = 1; c <= 5; ++c) {
                mc::check("mse2", {id, long(r), long(c)}, [&] {
                    for (int la = 0; la < 4; ++la) {
                        for (int lb = 0; lb < 4; ++lb) {
                            auto a = make2<F>(la, r, c), b = make2<F>(lb, r, c);
                            auto ca = make2<C>(la, r, c), cb = make2<C>(lb, r, c);
                            for (std::size_t p = 0; p <= r * c; ++p) {
                                for (std::size_t i = 0; i < r * c; ++i) {
                                    auto& x = a.at(i / c, i % c);
                                    auto& y = b.at(i / c, i % c);
                                    x       = static_cast<F>(values(r * c, 3)[i]);
                                    y       = p == r * c ? static_cast<F>(values(r * c, 4)[i]) : (p == i ? x - F(2) : x);
                                    ca.at(i / c, i % c) = C{x, F(i % 4)};
                                    cb.at(i / c, i % c) = C{y, F(i % 4)};
                                }
                                error("matrices", r * c, [&](std::size_t i) { return real(a.at(i / c, i % c)); }, [&](std::size_t i) { return real(b.at(i / c, i % c)); }, [&](auto fn) { with_view2(la, a, fn); },
                                      [&](auto fn) { with_view2(lb, b, fn); });
                                error("complex matrices", r * c, [&](std::size_t i) { return std::abs(lift(ca.at(i / c, i % c))); }, [&](std::size_t i) { return std::abs(lift(cb.at(i / c, i % c))); },
                                      [&](auto fn) { with_view2(la, ca, fn); }, [&](auto fn) { with_view2(lb, cb, fn); });
                            }
                        }
                    }
                });
            }
        }
    }

    void run()
    {
        for (std::size_t n = 0; n <= (mc::thorough() ? 80U : 33U); ++n) {
            mc::check("vector", {id, long(n)}, [&] {
                for (int s = 0; s < 4; ++s) {
                    for (std::size_t stride : {1, 3}) {
                        vector(at_scale(values(n, s + 1), s), stride, mc::format("dense, scale %d", s));
                        auto shifted = values(n, 6);
                        for (auto& v : shifted) {
                            v = static_cast<F>(v / 8 + 1000);  // mean far above the deviation
                        }
                        vector(at_scale(shifted, s), stride, mc::format("shifted, scale %d", s));
                        for (std::size_t p = 0; p < n; ++p) {
                            rvec x(n, 0.0L);
                            x[p] = p % 2 == 0 ? -2.5L : 0.25L;
                            vector(at_scale(x, s), stride, mc::format("single value at %zu, scale %d", p, s));
                            x    = values(n, 2);
                            x[p] = -60;  // the peak is negative, anywhere
                            vector(at_scale(x, s), stride, mc::format("peak at %zu, scale %d", p, s));
                        }
                    }
                }
                // already almost normalised: a peak, an energy or a mean close to one has to be treated like any other
                for (real k : {1.0L, 0.9L, 1.1L, 0.99L, 1.01L, 0.999L, 1.001L, 0.9999L, 1.0001L, 0.99999L, 1.00001L}) {
                    auto const base = values(n, 3);
                    auto const e    = expected{base};
                    if (n == 0 || !(e.peak > 0)) {
                        continue;
                    }
                    for (real by : {e.peak, std::sqrt(e.energy), std::abs(e.mean) > 0.01L ? e.mean : real(1), e.var > 0 ? std::sqrt(e.var) : real(1)}) {
                        auto x = base;
                        for (auto& v : x) {
                            v = static_cast<F>(v / by * k);
                        }
                        vector(x, 1, mc::format("within %g of one", double(k - 1)));
                        matrix(x, 1, n, 0, mc::format("within %g of one", double(k - 1)));
                    }
                }
                mc::sample("vector of %zu: dense, single value and peak at every position", n);
            });
        }
        for (std::size_t r = 0; r <= (mc::thorough() ? 9U : 5U); ++r) {
            for (std::size_t c = 0; c <= (mc::thorough() ? 12U : 6U); ++c) {
                mc::check("matrix", {id, long(r), long(c)}, [&] {
                    for (int layout = 0; layout < 4; ++layout) {
                        for (int s = 0; s < 4; ++s) {
                            matrix(at_scale(values(r * c, s + 1), s), r, c, layout, mc::format("dense, scale %d", s));
                            for (std::size_t p = 0; p < r * c; ++p) {
                                rvec x(r * c, 0.0L);
                                x[p] = -0.125L;
                                matrix(at_scale(x, s), r, c, layout, mc::format("single value at %zu, scale %d", p, s));
                            }
                            auto shifted = values(r * c, 6);
                            for (auto& v : shifted) {
                                v = static_cast<F>(v / 8 - 1000);
                            }
                            matrix(at_scale(shifted, s), r, c, layout, mc::format("shifted, scale %d", s));
                            // every set of silent channels
                            for (std::size_t mask = 0; mask < (std::size_t(1) << std::min<std::size_t>(r, 5)); ++mask) {
                                auto x = values(r * c, 5);
                                for (std::size_t i = 0; i < r * c; ++i) {
                                    x[i] *= ((mask >> (i / c)) & 1) != 0 ? 0 : 0.01L / real(1 + i / c);
                                }
                                matrix(at_scale(x, s), r, c, layout, mc::format("silent channels %zx, scale %d", mask, s));
                            }
                        }
                    }
                });
            }
        }
        for (std::size_t n = 1; n <= (mc::thorough() ? 6U : 4U); ++n) {
            mc::check("words", {id, long(n)}, [&] {
                static constexpr real letters[] = {0, 1, -1, 0.5L, -3};
                std::size_t total = 1;
                for (std::size_t i = 0; i < n; ++i) {
                    total *= 5;
                }
                for (std::size_t w = 0; w < total; ++w) {
                    rvec x(n);
                    auto r = w;
                    for (auto& v : x) {
                        v = letters[r % 5];
                        r /= 5;
                    }
                    vector(x, 1, "word");
                    for (std::size_t rows = 1; rows <= n; ++rows) {
                        if (n % rows == 0) {
                            matrix(x, rows, n / rows, int(w % 4), "word");
                        }
                    }
                }
            });
        }
        errors();
        // long objects; in long float sums the error is dominated by the elements, so few values suffice
        for (std::size_t n : {64, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 32769, 65535, 65536, 65537, 70001}) {
            mc::check("large", {id, long(n)}, [&] {
                for (std::size_t stride : {1, 2}) {
                    vector(values(n, 1), stride, "dense");
                    rvec x(n, 0.0L);
                    for (std::size_t p : {std::size_t(0), n / 2, n - 1}) {
                        x[p] = -2.5L;
                        vector(x, stride, mc::format("single value at %zu", p));
                        x[p] = 0;
                    }
                    vector(rvec(n, 0.0L), stride, "silence");
                    vector(rvec(n, -0.5L), stride, "constant");
                }
            });
        }
        for (auto [r, c] : {std::array<std::size_t, 2>{1, 300}, {300, 1}, {300, 3}, {3, 300}, {257, 2}, {2, 257}, {20, 20}, {2, 5000}, {5000, 2}, {2, 40000}, {65537, 1}, {1, 65537}}) {
            mc::check("large-matrix", {id, long(r), long(c)}, [&, r = r, c = c] {
                for (int layout = 0; layout < 4; ++layout) {
                    matrix(values(r * c, 1), r, c, layout, "dense");
                    // the loudest channel first, in the middle, last; the others silent or soft
                    for (std::size_t ch : {std::size_t(0), r / 2, r - 1}) {
                        for (real soft : {real(0), real(0.125)}) {
                            rvec x(r * c);
                            for (std::size_t i = 0; i < r * c; ++i) {
                                x[i] = static_cast<F>((i / c == ch ? 1 : soft) * (real(long(i % 7)) - 3));
                            }
                            matrix(x, r, c, layout, mc::format("loudest channel %zu", ch));
                        }
                    }
                }
            });
        }
    }
};

void run()
{
#if MC_PART == 0
    explorer<float>{0}.run();
    explorer<float>{0}.index_types();
#else
    explorer<double>{1}.run();
    explorer<double>{1}.index_types();
#endif
}

}  // namespace

MC_MAIN(run)
