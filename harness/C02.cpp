// MC-PARTS: 3
// MC-TITLE: Radix-3/4/5/8 FFT plans compute the DFT
// MC-TECH: every plan x type x order x direction x layout, all basis vectors and all words over a small alphabet, oracle = DFT sum
// MC-QUICK: v3 sse2 gcc
// MC-THOROUGH: avx512 v3rel
// MC-BOUNDS: Quick: every plan, sizes up to 3^4, 4^4, 5^3, 8^2 with every basis vector (times 1 and i) and one order more with basis vectors of sparse index, all words over {0,1,i,-1,-i} up to n=4, {0,1,i} up to n=5 and {0,1} up to n=8, both directions, contiguous, strided and out of place, 4 complex types; sizes up to 70000 with 4 weighted basis vectors and one dense vector whose spectrum is a closed form. Thorough: one more full order, closed-form inputs up to 300000 points. The dense vector is also run scaled by 2^-90, 2^-45, 2^45 and 2^90. Every word of four directions on a fresh plan (sizes to 128).
#include "fftcommon.hpp"

using namespace fc;
namespace nf = neo::fft;

namespace {

template<typename C>
void all_plans(long type_id)
{
    auto const cap = std::uint64_t(mc::thorough() ? 70000 : 1000);
    auto const more = std::size_t(mc::thorough() ? 1 : 0);
    auto run       = [&]<typename Plan>(char const* name, std::size_t radix, std::size_t full) {
        auto n = std::size_t(1);
        for (std::size_t order = 0; order <= full + more + 1; ++order, n *= radix) {
            auto log2n = std::size_t(std::ceil(std::log2(double(n)))) + 1;
            explore_plan<C, Plan>(name, type_id, order, n, log2n, order <= full + more, cap,
                                  {inplace_flat, inplace_strided, out_flat});
        }
    };
    run.template operator()<nf::c2c_dif3_plan<C>>("dif3", 3, 4);
    run.template operator()<nf::c2c_dif5_plan<C>>("dif5", 5, 3);
    run.template operator()<nf::c2c_dit4_plan<C>>("dit4", 4, 3);
    run.template operator()<nf::c2c_dif4_plan<C>>("dif4", 4, 3);
    run.template operator()<nf::c2c_stockham_dif3_plan<C>>("stockham_dif3", 3, 4);
    run.template operator()<nf::c2c_stockham_dif4_plan<C>>("stockham_dif4", 4, 3);
    run.template operator()<nf::c2c_stockham_dif5_plan<C>>("stockham_dif5", 5, 3);
    run.template operator()<nf::c2c_stockham_dif8_plan<C>>("stockham_dif8", 8, 2);
    run.template operator()<nf::c2c_stockham_dit4_plan<C>>("stockham_dit4", 4, 3);
}

// long transforms: a few inputs with known spectra per order. Plans that step their twiddle factors by repeated
// multiplication accumulate rounding errors along the stage, so the tolerance grows with the size.
template<typename C>
void large_plans(long type_id)
{
    auto const limit = std::size_t(mc::thorough() ? 300000 : 70000);
    auto run         = [&]<typename Plan>(char const* name, std::size_t radix) {
        auto n = radix * radix;
        for (std::size_t order = 2; n <= limit; ++order, n *= radix) {
            if (n > 60) {
                explore_large<C, Plan>(name, type_id, order, n, static_cast<real>(64 + n), {inplace_flat});
            }
        }
    };
    run.template operator()<nf::c2c_dif3_plan<C>>("large_dif3", 3);
    run.template operator()<nf::c2c_dif5_plan<C>>("large_dif5", 5);
    run.template operator()<nf::c2c_dit4_plan<C>>("large_dit4", 4);
    run.template operator()<nf::c2c_dif4_plan<C>>("large_dif4", 4);
    run.template operator()<nf::c2c_stockham_dif3_plan<C>>("large_stockham_dif3", 3);
    run.template operator()<nf::c2c_stockham_dif4_plan<C>>("large_stockham_dif4", 4);
    run.template operator()<nf::c2c_stockham_dif5_plan<C>>("large_stockham_dif5", 5);
    run.template operator()<nf::c2c_stockham_dif8_plan<C>>("large_stockham_dif8", 8);
    run.template operator()<nf::c2c_stockham_dit4_plan<C>>("large_stockham_dit4", 4);
}

template<std::size_t Radix>
void digit_reversal(std::size_t last)
{
    auto n = std::size_t(1);
    for (std::size_t order = 0; order <= last; ++order, n *= Radix) {
        mc::check("digitrev", {static_cast<long>(Radix), static_cast<long>(order)}, [&] {
            buffer<std::complex<double>> a{n}, b{n, 3};
            for (std::size_t i = 0; i < n; ++i) {
                a.at(i) = b.at(i) = {double(i), 1.0};
            }
            auto plan = nf::digitrevorder_plan<Radix>{n};
            plan(a.flat());
            plan(b.strided());
            for (std::size_t i = 0; i < n; ++i) {
                std::size_t r = 0, v = i;
                for (std::size_t d = 0; d < order; ++d) {
                    r = r * Radix + v % Radix;
                    v /= Radix;
                }
                mc::require(a.at(i) == std::complex<double>{double(r), 1.0}, "digit reversal radix %zu n=%zu element %zu", Radix, n, i);
                mc::require(b.at(i) == a.at(i), "digit reversal strided radix %zu n=%zu element %zu", Radix, n, i);
            }
            a.check_guards("digit reversal");
            b.check_guards("digit reversal");
            mc::states(n);
            mc::transition(2);
            mc::trace(2);
        });
    }
}

void run()
{
#if MC_PART == 0
    all_plans<std::complex<float>>(0);
    all_plans<std::complex<double>>(1);
#elif MC_PART == 2
    large_plans<std::complex<float>>(0);
    large_plans<std::complex<double>>(1);
#else
    all_plans<neo::scalar_complex<float>>(2);
    all_plans<neo::scalar_complex<double>>(3);
    digit_reversal<2>(17);
    digit_reversal<3>(10);
    digit_reversal<4>(8);
    digit_reversal<5>(7);
    digit_reversal<8>(5);
#endif
}

}  // namespace

MC_MAIN(run)
