// MC-TITLE: Delay-line indexing pairs every filter segment with the right block
// MC-TECH: explicit-state exploration of the indexer: every segment count, every step count over three rounds, every step/reset word for small counts, checked against a model that tracks the age of each slot
// MC-QUICK: v3 gcc
// MC-THOROUGH: sse2 v3rel
// MC-BOUNDS: Segment counts 1..300 for 16..64-bit index types, 1..255 (uint8) and 1..127 (int8), 1024 and 4097 for wide types; 3N+2 steps each; 20000..131073 segments where the type can count them, first steps only; one reset after every number of steps; for N <= 6 all words of steps and resets up to length 10 (thorough 14); copies of the indexer taken at every point.
#include "convcommon.hpp"

using namespace cc;

namespace {

template<typename I>
struct explorer
{
    char const* name;
    using index = nc::fdl_index<I>;

    struct line
    {
        std::size_t N;
        std::vector<long> stamp;  // step at which the slot was last written since the last reset, -1: never
        long now{0};
        bool first{true};
        explicit line(std::size_t n) : N{n}, stamp(n, -1) {}

        void step(index& ix, char const* name)
        {
            int copies = 0;
            bool multiplied = false;
            std::size_t slot = N;
            std::vector<char> seen_slot(N, 0), seen_seg(N, 0);
            std::size_t pairs = 0;
            auto copy = [&](I s) {
                ++copies;
                mc::require(!multiplied, "%s N=%zu: block stored after it was used", name, N);
                mc::require(s >= I(0) && std::size_t(s) < N, "%s N=%zu: stored in slot %ld", name, N, long(s));
                slot = std::size_t(s);
                if (first) {
                    mc::require(slot == 0, "%s N=%zu: the first block after a start or reset goes to slot %zu", name, N, slot);
                }
                stamp[slot] = now;
            };
            auto mul = [&](I s, I seg) {
                multiplied = true;
                ++pairs;
                mc::require(s >= I(0) && std::size_t(s) < N && seg >= I(0) && std::size_t(seg) < N, "%s N=%zu step %ld: pair (%ld, %ld)", name, N, now, long(s), long(seg));
                mc::require(!seen_slot[std::size_t(s)] && !seen_seg[std::size_t(seg)], "%s N=%zu step %ld: slot %ld or segment %ld used twice", name, N, now, long(s), long(seg));
                seen_slot[std::size_t(s)] = seen_seg[std::size_t(seg)] = 1;
                auto const st = stamp[std::size_t(s)];
                if (st >= 0) {
                    mc::require(now - st == long(seg), "%s N=%zu step %ld: slot %ld holds a block of age %ld but meets segment %ld", name, N, now, long(s), now - st, long(seg));
                } else {
                    mc::require(long(seg) > now, "%s N=%zu step %ld: unwritten slot %ld meets segment %ld", name, N, now, long(s), long(seg));
                }
            };
            ix(copy, mul);
            mc::transition();
            mc::require(copies == 1, "%s N=%zu: %d copies in one step", name, N, copies);
            mc::require(pairs == N, "%s N=%zu: %zu pairs in one step", name, N, pairs);
            first = false;
            ++now;
            mc::state(mc::hasher{}.bytes(name, std::strlen(name)).add(N).add(slot).add(std::min<long>(now, long(N) + 1)).h);
        }
        void reset(index& ix)
        {
            ix.reset();
            mc::transition();
            stamp.assign(N, -1);
            now   = 0;
            first = true;
        }
    };

    void words(index ix, line l, std::size_t depth)
    {
        if (depth == 0) {
            mc::trace();
            return;
        }
        auto i2 = ix;
        auto l2 = l;
        l2.step(i2, name);
        words(i2, l2, depth - 1);
        l.reset(ix);
        words(ix, l, depth - 1);
    }

    void run()
    {
        auto const max = std::numeric_limits<I>::max();
        std::vector<std::size_t> counts;
        for (std::size_t n = 1; n <= 300 && n <= std::size_t(max); ++n) {
            counts.push_back(n);
        }
        if (std::size_t(max) > 5000) {
            counts.insert(counts.end(), {1024, 4097});
        }
        // more segments than 16 bits can count: the first steps only
        for (std::size_t n : {20000, 32767, 32768, 40000, 65535, 65536, 70000, 131073}) {
            if (n <= std::size_t(max)) {
                mc::check("wide", {long(sizeof(I)), long(std::is_signed_v<I>), long(n)}, [&] {
                    auto ix = index{static_cast<I>(n)};
                    line l{n};
                    for (int round = 0; round < 2; ++round) {
                        for (int t = 0; t < 4; ++t) {
                            l.step(ix, name);
                        }
                        l.reset(ix);
                    }
                    mc::trace();
                });
            }
        }
        for (auto N : counts) {
            mc::check(name, {long(N)}, [&] {
                auto ix = index{static_cast<I>(N)};
                line l{N};
                for (std::size_t t = 0; t < 3 * N + 2 && t < 9000; ++t) {
                    l.step(ix, name);
                }
                mc::trace();
                // one reset after every number of steps, then more than a full round
                auto const upto = N <= 40 ? 2 * N + 2 : 0;
                for (std::size_t k = 0; k < upto; ++k) {
                    auto ix2 = index{static_cast<I>(N)};
                    line l2{N};
                    for (std::size_t t = 0; t < k; ++t) {
                        l2.step(ix2, name);
                    }
                    l2.reset(ix2);
                    for (std::size_t t = 0; t < 2 * N + 1; ++t) {
                        l2.step(ix2, name);
                    }
                    mc::trace();
                }
                mc::sample("%s: %zu segments, %zu steps", name, N, 3 * N + 2);
            });
            if (N <= 6) {
                mc::check("words", {long(sizeof(I)), long(std::is_signed_v<I>), long(N)}, [&] { words(index{static_cast<I>(N)}, line{N}, mc::thorough() ? 14 : 10); });
            }
        }
    }
};

void run()
{
    explorer<std::size_t>{"size_t"}.run();
    explorer<std::ptrdiff_t>{"ptrdiff_t"}.run();
    explorer<std::int32_t>{"int32"}.run();
    explorer<std::uint32_t>{"uint32"}.run();
    explorer<std::int16_t>{"int16"}.run();
    explorer<std::uint16_t>{"uint16"}.run();
    explorer<std::int8_t>{"int8"}.run();
    explorer<std::uint8_t>{"uint8"}.run();
}

}  // namespace

MC_MAIN(run)
