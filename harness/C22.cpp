// MC-TITLE: Compressed storage reproduces values within one quantisation step
// MC-TECH: explicit-state exploration of every insertion sequence up to a depth against a matrix model, exhaustive enumeration of all codes and of values on a grid finer than the step, and of convolution streams through the compressed delay line
// MC-QUICK: v3 sse2
// MC-THOROUGH: gcc v3rel avx512
// MC-PARTS: 2
// MC-BOUNDS: codes: all 2^8 and 2^16 (32-bit: boundary neighbourhoods) for real and complex elements in float/double, through full views, every offset of the data handle and every sub-view. Values: every multiple of 1/16 step with both neighbours over [-1,1], a factor-1.01 ladder up to the largest float and every code boundary beyond full scale. Histories: all words of up to 5 (thorough 6) insertions over 3 rows x 2 contents and over 1..4 rows x 1..5 columns (depth 3), with full and shorter inputs, contiguous and strided; copies; lines of up to 2000 rows and 66000 columns. Streams: overlap-save convolution with the compressed line, blocks 2..16, 1..4 partitions, every impulse position and dense input, every filter reload.
// MC-ASSUME: finite values; elements that were not written since construction read as zero
#include "convcommon.hpp"

#include <neo/container/compressed_accessor.hpp>
#include <neo/convolution/compressed_fdl.hpp>

#include <deque>
#include <set>

using namespace cc;

namespace {

template<typename Int>
constexpr auto full = real(std::numeric_limits<Int>::max());

// ---------------------------------------------------------------------------------------------------------------
template<typename F, typename Int>
void accessor_codes(long id)
{
    std::vector<Int> codes;
    if constexpr (sizeof(Int) <= 2) {
        for (long v = std::numeric_limits<Int>::min(); v <= std::numeric_limits<Int>::max(); ++v) {
            codes.push_back(Int(v));
        }
    } else {
        std::set<long> s;
        for (int k = 0; k <= 31; ++k) {
            for (long d = -5; d <= 5; ++d) {
                for (long v : {(1L << k) + d, -(1L << k) + d}) {
                    if (v >= std::numeric_limits<Int>::min() && v <= std::numeric_limits<Int>::max()) {
                        s.insert(v);
                    }
                }
            }
        }
        for (auto v : s) {
            codes.push_back(Int(v));
        }
    }
    auto expect = [](real got, Int code, char const* what) {
        auto const want = real(code) / full<Int>;
        mc::require(dist(got, want) <= 2 * eps<F>() * std::abs(want), "%s: code %ld reads as %.12Lg, expected %.12Lg", what, long(code), got, want);
    };
    mc::check("codes-real", {id}, [&] {
        using A = neo::compressed_accessor<F, Kokkos::default_accessor<Int const>>;
        auto const m = Kokkos::mdspan<F, ext1, Kokkos::layout_right, A>{codes.data(), Kokkos::layout_right::mapping<ext1>{ext1{codes.size()}}, A{Kokkos::default_accessor<Int const>{}}};
        for (std::size_t i = 0; i < codes.size(); ++i) {
            expect(m[i], codes[i], "real view");
            mc::state(mc::hasher{}.add(F(m[i])).add(id).h);
        }
        auto const a = A{Kokkos::default_accessor<Int const>{}};
        for (std::size_t i = 0; i < codes.size(); ++i) {
            auto* p = a.offset(codes.data(), i);
            expect(a.access(p, 0), codes[i], "offset view");
            expect(a.access(codes.data(), i), codes[i], "access");
            auto const back = i / 2;
            expect(a.access(a.offset(codes.data(), i - back), back), codes[i], "access past an offset");
        }
        mc::transition(4 * codes.size());
        mc::trace(codes.size());
    });
    mc::check("codes-complex", {id}, [&] {
        using IC = neo::scalar_complex<Int>;
        using FC = std::complex<F>;
        using A  = neo::compressed_accessor<FC, Kokkos::default_accessor<IC>>;
        std::vector<IC> z;
        for (std::size_t i = 0; i < codes.size(); ++i) {
            z.push_back(IC{codes[i], codes[(i * 7 + 3) % codes.size()]});
        }
        auto const m = Kokkos::mdspan<FC, ext1, Kokkos::layout_right, A>{z.data(), Kokkos::layout_right::mapping<ext1>{ext1{z.size()}}, A{Kokkos::default_accessor<IC>{}}};
        for (std::size_t i = 0; i < z.size(); ++i) {
            FC const v = m[i];
            expect(v.real(), z[i].real(), "real part of a complex view");
            expect(v.imag(), z[i].imag(), "imaginary part of a complex view");
        }
        mc::states(z.size());
        mc::transition(z.size());
        mc::trace(z.size());
    });
    mc::check("sub-views", {id}, [&] {
        using A = neo::compressed_accessor<F, Kokkos::default_accessor<Int>>;
        for (std::size_t R = 1; R <= 4; ++R) {
            for (std::size_t C = 1; C <= 5; ++C) {
                std::vector<Int> mem(R * C);
                for (std::size_t i = 0; i < mem.size(); ++i) {
                    mem[i] = Int(codes[(i * 37 + 11 * R + C) % codes.size()]);
                }
                auto whole = [&](auto map) {
                    using L = typename decltype(map)::layout_type;
                    return Kokkos::mdspan<F, ext2, L, A>{mem.data(), map, A{Kokkos::default_accessor<Int>{}}};
                };
                auto verify = [&](auto m, auto index) {
                    for (std::size_t r = 0; r < R; ++r) {
                        for (std::size_t c = 0; c < C; ++c) {
                            expect(m(r, c), mem[index(r, c)], "matrix view");
                        }
                        auto const row = Kokkos::submdspan(m, r, Kokkos::full_extent);
                        for (std::size_t c = 0; c < C; ++c) {
                            expect(row[c], mem[index(r, c)], "row of a matrix view");
                        }
                        for (std::size_t from = 0; from < C; ++from) {
                            for (std::size_t to = from + 1; to <= C; ++to) {
                                auto const part = Kokkos::submdspan(row, std::tuple{from, to});
                                for (std::size_t c = from; c < to; ++c) {
                                    expect(part[c - from], mem[index(r, c)], "slice of a row");
                                    mc::transition();
                                }
                            }
                        }
                    }
                    for (std::size_t c = 0; c < C; ++c) {
                        auto const col = Kokkos::submdspan(m, Kokkos::full_extent, c);
                        for (std::size_t r = 0; r < R; ++r) {
                            expect(col[r], mem[index(r, c)], "column of a matrix view");
                        }
                    }
                    mc::states(R * C);
                    mc::trace();
                };
                verify(whole(Kokkos::layout_right::mapping<ext2>{ext2{R, C}}), [&](std::size_t r, std::size_t c) { return r * C + c; });
                verify(whole(Kokkos::layout_left::mapping<ext2>{ext2{R, C}}), [&](std::size_t r, std::size_t c) { return r + c * R; });
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
template<typename F, typename FC, typename Int>
struct line
{
    using IC  = neo::scalar_complex<Int>;
    using fdl = nc::compressed_fdl<FC, IC>;
    long id;

    static auto stored_ok(real x, real got) -> bool
    {
        // half a step, plus the rounding of the scaled value and of the read-back
        auto const slack = (0.5L + 4 * eps<float>() * full<Int>) / full<Int>;
        if (x > 1) {
            return dist(got, 1) <= 2 * eps<F>();
        }
        if (x < -1) {
            return dist(got, -1) <= 2 * eps<F>();
        }
        return dist(got, x) <= std::min(slack, 0.502L / full<Int> + 4 * eps<F>()) + 0;
    }

    void values()
    {
        auto run = [&](std::vector<F> const& v, char const* what) {
            // neighbouring values share an element so that real and imaginary parts differ
            auto const n = (v.size() + 1) / 2;
            auto in      = std::vector<FC>(n);
            for (std::size_t i = 0; i < n; ++i) {
                in[i] = FC{v[2 * i], v[std::min(2 * i + 1, v.size() - 1)]};
            }
            auto f = fdl{ext2{1, n}};
            f.insert(span1<FC const>{in.data(), ext1{n}}, 0);
            auto const row = f[0];
            mc::require(row.extent(0) == n, "row length");
            for (std::size_t i = 0; i < n; ++i) {
                FC const z = row[i];
                for (int part = 0; part < 2; ++part) {
                    auto const x   = real(part == 0 ? in[i].real() : in[i].imag());
                    auto const got = real(part == 0 ? z.real() : z.imag());
                    mc::require(stored_ok(x, got), "%s: %.12Lg stored in %zu bits reads back as %.12Lg", what, x, sizeof(Int) * 8, got);
                    mc::state(mc::hasher{}.add(got).add(id).h);
                }
            }
            mc::transition(2 * n);
            mc::trace(2 * n);
        };
        mc::check("grid", {id}, [&] {
            std::vector<F> v;
            auto const fine = long(full<Int>) * (sizeof(Int) == 1 ? 64 : 8);
            for (long k = -fine - 40; k <= fine + 40; ++k) {
                auto const x = F(real(k) / real(fine));
                v.push_back(x);
                v.push_back(std::nextafter(x, F(-10)));
                v.push_back(std::nextafter(x, F(10)));
            }
            run(v, "grid");
        });
        mc::check("beyond", {id}, [&] {
            std::vector<F> v;
            for (auto x = F(1); x < std::numeric_limits<F>::max() / F(1.02); x *= F(1.01)) {
                v.push_back(x);
                v.push_back(-x);
                if (sizeof(F) == 8 && x > F(1e45)) {
                    x *= F(1e3);
                }
            }
            v.push_back(std::numeric_limits<F>::max());
            v.push_back(std::numeric_limits<F>::lowest());
            for (long k = 0; k <= 70000; ++k) {  // where a wrapping conversion would come round again
                v.push_back(F(real(k) * (sizeof(Int) == 1 ? 1.0L / 64 : 1.0L / 512)));
                v.push_back(-v.back());
            }
            run(v, "beyond full scale");
        });
        mc::check("small", {id}, [&] {
            std::vector<F> v{F(0), -F(0), std::numeric_limits<F>::denorm_min(), -std::numeric_limits<F>::denorm_min()};
            for (auto x = F(1); x > std::numeric_limits<F>::min() * 2; x *= F(0.93)) {
                v.push_back(x);
                v.push_back(-x);
                if (sizeof(F) == 8 && x < F(1e-45)) {
                    x *= F(1e-3);
                }
            }
            run(v, "ladder");
        });
    }

    struct model_state
    {
        std::size_t R, C;
        rvec re, im;
        model_state(std::size_t r, std::size_t c) : R{r}, C{c}, re(r * c, 0), im(r * c, 0) {}
    };

    static auto content(int which, std::size_t n) -> vec
    {
        vec v(n);
        for (std::size_t i = 0; i < n; ++i) {
            auto const a = real(long((i * 5 + std::size_t(which) * 3) % 11) - 5) / 5.5L;
            auto const b = real(long((i * 7 + std::size_t(which) * 8 + 2) % 13) - 6) / 5;  // reaches beyond full scale
            v[i]         = {a, b};
        }
        return v;
    }

    void verify(fdl const& f, model_state const& m, std::string const& what)
    {
        mc::hasher h;
        for (std::size_t r = 0; r < m.R; ++r) {
            auto const row = f[r];
            mc::require(row.extent(0) == m.C, "%s: row %zu has %zu elements, expected %zu", what.c_str(), r, std::size_t(row.extent(0)), m.C);
            for (std::size_t c = 0; c < m.C; ++c) {
                FC const z = row[c];
                mc::require(stored_ok(m.re[r * m.C + c], z.real()) && stored_ok(m.im[r * m.C + c], z.imag()), "%s: row %zu column %zu is (%Lg,%Lg), expected (%Lg,%Lg)", what.c_str(), r, c, real(z.real()), real(z.imag()), m.re[r * m.C + c], m.im[r * m.C + c]);
                h.add(F(z.real())).add(F(z.imag()));
            }
        }
        mc::state(h.add(m.R).add(m.C).add(id).h);
    }

    /// letter: row, content, length, strided or not
    void apply(fdl& f, model_state& m, std::size_t row, int which, std::size_t n, bool strided, long kind)
    {
        auto const v = content(which, n);
        buffer<FC> b{n, strided ? 3UL : 1UL};
        for (std::size_t i = 0; i < n; ++i) {
            b.at(i) = mk<FC>(v[i]);
        }
        auto put = [&](auto index) {
            if (strided) {
                f.insert(b.cstrided(), index);
            } else {
                f.insert(b.flat(), index);
            }
        };
        if (kind % 2 == 0) {
            put(row);
        } else {
            put(int(row));
        }
        for (std::size_t i = 0; i < n; ++i) {
            m.re[row * m.C + i] = real(b.at(i).real());
            m.im[row * m.C + i] = real(b.at(i).imag());
        }
        mc::transition();
    }

    /// long lines: every row written, then rows at the ends, in the middle and around 127/255 overwritten
    void large(std::size_t R, std::size_t C)
    {
        mc::check("large", {id, long(R), long(C)}, [&] {
            auto f = fdl{ext2{R, C}};
            auto m = model_state{R, C};
            for (std::size_t r = 0; r < R; ++r) {
                apply(f, m, R - 1 - r, int(r % 5), C, r % 2 == 0, long(r));
            }
            verify(f, m, mc::format("%zux%zu, every row written", R, C));
            for (std::size_t r : {std::size_t(0), R - 1, R / 2, std::size_t(127), std::size_t(128), std::size_t(255), std::size_t(256)}) {
                if (r < R) {
                    apply(f, m, r, int(r % 3) + 6, C, false, 0);
                }
            }
            verify(f, m, mc::format("%zux%zu, some rows overwritten", R, C));
            auto g  = f;
            auto m2 = m;
            apply(g, m2, R / 3, 9, C - 1, true, 1);
            verify(g, m2, "changed copy");
            verify(f, m, "original of a changed copy");
            mc::trace(4);
        });
    }

    void histories(std::size_t R, std::size_t C, int contents, int depth)
    {
        // letters: row x content x {full, one element short}
        auto const letters = R * std::size_t(contents) * (C > 1 ? 2 : 1);
        for (std::size_t first = 0; first < letters; ++first) {
            mc::check("histories", {id, long(R), long(C), long(depth), long(first)}, [&] {
                auto rec = [&](auto& self, fdl const& f, model_state const& m, int left, std::string const& word) -> void {
                    verify(f, m, word);
                    if (left == 0) {
                        mc::trace();
                        return;
                    }
                    for (std::size_t l = 0; l < letters; ++l) {
                        if (left == depth && l != first) {
                            continue;
                        }
                        auto g  = f;
                        auto m2 = m;
                        auto const row   = l % R;
                        auto const which = int(l / R % std::size_t(contents));
                        auto const n     = l / R / std::size_t(contents) == 0 ? C : C - 1;
                        apply(g, m2, row, which, n, left % 2 == 0, left);
                        self(self, g, m2, left - 1, word + mc::format(" insert(%d,len %zu)->row %zu", which, n, row));
                    }
                    verify(f, m, word + " (original after its copies were changed)");
                };
                rec(rec, fdl{ext2{R, C}}, model_state{R, C}, depth, "history");
                mc::sample("all words of %d insertions into %zux%zu", depth, R, C);
            });
        }
    }
};

// ---------------------------------------------------------------------------------------------------------------
template<typename F, typename Int>
struct streams
{
    using C    = neo::scalar_complex<F>;
    using IC   = neo::scalar_complex<Int>;
    using conv = nc::uniform_partitioned_convolver<nc::overlap_save<C>, nc::compressed_fdl<C, IC>, nc::dense_filter<C>>;
    long id;

    void one(conv& cv, std::size_t B, std::size_t P, rvec const& h, rvec x, std::string const& what)
    {
        // keep every block spectrum within full scale
        auto const scale = 1.0L / real(2 * B);
        for (auto& v : x) {
            v *= scale;
        }
        real gain = 0;
        auto const s = partition<C>(h, B, P);
        cv.filter(s.to_mdspan());
        for (std::size_t p = 0; p < P; ++p) {
            real g = 0;
            for (std::size_t k = 0; k <= B; ++k) {
                g = std::max(g, std::abs(lift(s(p, k))));
            }
            gain += g;
        }
        auto const tol = gain * 0.5L * 1.5L / full<Int> + tolerance<F>(x, h, 2 * B) + 8 * eps<F>() * gain;
        auto const y   = stream(x, h);
        std::vector<F> got;
        for (std::size_t t = 0; t < x.size() / B; ++t) {
            buffer<F> b{B};
            for (std::size_t i = 0; i < B; ++i) {
                b.at(i) = F(x[t * B + i]);
            }
            process<F>(cv, b, false);
            for (std::size_t i = 0; i < B; ++i) {
                mc::require(dist(b.at(i), y[t * B + i]) <= tol, "compressed line B=%zu P=%zu %s: block %zu sample %zu is %Lg, expected %Lg (tolerance %Lg)", B, P, what.c_str(), t, i, real(b.at(i)), y[t * B + i], tol);
                got.push_back(b.at(i));
            }
        }
        mc::outcome(hash_values(got));
        mc::states(x.size() / B);
        mc::trace();
    }

    void run()
    {
        for (std::size_t B : {2, 4, 8, 16}) {
            for (std::size_t P = 1; P <= (mc::thorough() ? 6U : 4U); ++P) {
                mc::check("streams", {id, long(B), long(P)}, [&] {
                    auto cv      = conv{};
                    auto const n = (2 * P + 2) * B;
                    auto const h = dense(B * P, 2);
                    one(cv, B, P, h, dense(n, 1), "dense");
                    one(cv, B, P, h, dense(n, 4), "dense after reloading the filter");
                    for (std::size_t j = 0; j < std::min(n, 2 * B + 2); ++j) {
                        auto fresh = conv{};
                        auto x     = basis(n, j);
                        one(fresh, B, P, h, x, mc::format("impulse at %zu", j));
                    }
                });
            }
        }
    }
};

template<typename F, typename FC, typename Int>
void lines(long id)
{
    auto l = line<F, FC, Int>{id};
    l.values();
    l.large(300, 3);
    l.large(3, 300);
    l.large(257, 65);
    l.large(2, 66000);
    l.large(2000, 2);
    l.histories(3, 2, 2, mc::thorough() ? 5 : 4);
    l.histories(3, 1, 2, mc::thorough() ? 6 : 5);
    for (std::size_t R = 1; R <= 4; ++R) {
        for (std::size_t C = 1; C <= 5; ++C) {
            l.histories(R, C, 1, 3);
        }
    }
}

void run()
{
    if (MC_PART == 0) {
        accessor_codes<float, std::int8_t>(0);
        accessor_codes<float, std::int16_t>(1);
        accessor_codes<double, std::int8_t>(2);
        accessor_codes<double, std::int16_t>(3);
        accessor_codes<double, std::int32_t>(4);
        streams<float, std::int16_t>{0}.run();
        streams<float, std::int8_t>{1}.run();
        streams<double, std::int16_t>{2}.run();
    }
    if (MC_PART == 1) {
        lines<float, std::complex<float>, std::int8_t>(0);
        lines<float, std::complex<float>, std::int16_t>(1);
        lines<float, neo::scalar_complex<float>, std::int8_t>(2);
        lines<double, neo::scalar_complex<double>, std::int16_t>(3);
        lines<double, std::complex<double>, std::int8_t>(4);
    }
}

}  // namespace

MC_MAIN(run)
