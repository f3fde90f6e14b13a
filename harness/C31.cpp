// MC-TITLE: Plans, convolvers and processors are independent values
// MC-TECH: all words over {install, feed, copy, move, swap, self-assign} on two slots against a model of two input histories; and stateless exploration of two threads using distinct objects, scheduling points at every element access, all schedules with one preemption (and a grid of those with two), each in a fresh process, compared bit for bit with the solo runs
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 2
// MC-BOUNDS: Value words: two slots, three filters (two of one shape), 10 letters, every word of length 5 (thorough 6) that starts with an installation, each followed by enough blocks to go round both delay lines; seven convolver types and overlap-add/overlap-save processors (with another processor running inside the callback), float and double; the filter given to filter() is overwritten and freed right after installation. Threads: 25 object types, each thread constructs its own object (equal or different size) and uses it twice; every schedule with one preemption at any element access, in a process in which the code has never run before, and a grid of 12x12 (thorough 40x40) schedules with two preemptions.
// MC-ASSUME: scheduling points are element accesses through mdspan and sequential consistency is assumed; sharing one object between threads is not promised by the library and not explored.
#if MC_PART == 1
    #define NEO_SHIM_SCHEDULED
#endif
#include "convcommon.hpp"

#include <neo/algorithm.hpp>
#include <neo/convolution/compressed_fdl.hpp>
#include <neo/fft.hpp>

#include <condition_variable>
#include <mutex>
#include <sys/wait.h>
#include <thread>

using namespace cc;
namespace nf = neo::fft;

namespace {

#if MC_PART == 0

struct shape
{
    std::size_t B, P;
    int salt;
};
constexpr shape shapes[] = {{2, 3, 4}, {2, 3, 9}, {4, 2, 5}};  // two of one shape

enum kind
{
    plain,
    sparse,
    chunked,
    single
};

/// overlap_add/overlap_save with a multiplication in the callback; another processor of the same type runs inside it
template<typename Overlap, typename F>
struct nested_processor
{
    using C = std::complex<F>;
    std::optional<Overlap> outer, inner;
    matrix<C> H{};
    std::size_t B{0};
    std::vector<F> fed{}, got{};

    void filter(auto m)
    {
        B     = m.extent(1) - 1;
        outer = Overlap{B, B};
        inner = Overlap{B, B};
        H     = matrix<C>{1, B + 1};
        fed.clear();
        got.clear();
        for (std::size_t k = 0; k <= B; ++k) {
            H(0, k) = m(0, k);
        }
    }
    void operator()(auto block)
    {
        auto mul = [this](auto X) {
            for (std::size_t k = 0; k < X.extent(0); ++k) {
                X[k] = X[k] * H(0, k);
            }
        };
        (*outer)(block, [&](auto X) {
            std::vector<F> y(B);
            for (std::size_t i = 0; i < B; ++i) {
                y[i] = F(long((fed.size() * 5 + 2) % 11) - 5);
                fed.push_back(y[i]);
            }
            (*inner)(span1<F>{y.data(), ext1{B}}, mul);
            got.insert(got.end(), y.begin(), y.end());
            mul(X);
        });
    }
};

template<typename Conv, typename F, kind Kind>
struct explorer
{
    using C = std::complex<F>;
    char const* name;
    long id;
    std::vector<rvec> h;
    std::vector<matrix<C>> spectra;

    explorer(char const* n, long i) : name{n}, id{i}
    {
        for (auto const& s : shapes) {
            auto const P = Kind == single ? std::size_t(1) : s.P;
            h.push_back(dense(s.B * P, s.salt));
            spectra.push_back(partition<C>(h.back(), s.B, P));
        }
    }

    struct slot
    {
        Conv conv{};
        int f{-1};
        rvec x{};
        std::vector<F> y{};
    };

    static constexpr char const* letters[] = {"installX0", "installX1", "installY2", "feedX", "feedY", "X=Y", "Y=X", "X=move(Y)", "swap", "X=X"};
    static constexpr int n_ops             = 10;

    struct machine
    {
        explorer& e;
        std::vector<int> const& word;
        slot s[2]{};
        std::size_t fed{0};

        void install(int w, int k)
        {
            auto& t = s[w];
            t.f     = k;
            t.x.clear();
            t.y.clear();
            auto m = std::make_unique<matrix<C>>(e.spectra[std::size_t(k)]);
            if constexpr (Kind == sparse) {
                t.conv.filter(m->to_mdspan(), [](auto, auto, auto) { return true; });
            } else {
                t.conv.filter(m->to_mdspan());
            }
            for (std::size_t p = 0; p < m->extent(0); ++p) {
                for (std::size_t i = 0; i < m->extent(1); ++i) {
                    (*m)(p, i) = C{std::numeric_limits<F>::quiet_NaN(), F(1e9)};
                }
            }
            mc::transition();
        }
        void feed(int w, std::size_t blocks)
        {
            auto& t = s[w];
            if (t.f < 0) {
                return;
            }
            auto const B = shapes[t.f].B;
            auto const n = Kind == chunked ? B * blocks + 1 : B;
            for (std::size_t r = 0; r < (Kind == chunked ? 1 : blocks); ++r) {
                buffer<F> b{n};
                for (std::size_t i = 0; i < n; ++i) {
                    auto const v = real(long((fed * 7 + 3) % 19) - 9) / 4;
                    ++fed;
                    t.x.push_back(v);
                    b.at(i) = static_cast<F>(v);
                }
                process<F>(t.conv, b, false);
                b.check_guards(e.name);
                for (std::size_t i = 0; i < n; ++i) {
                    t.y.push_back(b.at(i));
                }
            }
        }
        auto text() -> std::string
        {
            std::string w;
            for (auto o : word) {
                w += ' ';
                w += letters[o];
            }
            return w;
        }
        void verify(int w)
        {
            auto& t = s[w];
            if (t.f < 0) {
                return;
            }
            auto const& hf = e.h[std::size_t(t.f)];
            auto const ref = stream(t.x, hf);
            auto const tol = tolerance<F>(t.x, hf, 2 * shapes[t.f].B);
            for (std::size_t i = 0; i < t.y.size(); ++i) {
                if (!(dist(t.y[i], ref[i]) <= tol)) {
                    mc::fail("%s after [%s ]: sample %zu of the stream of %c is %Lg, expected %Lg", e.name, text().c_str(), i, w == 0 ? 'X' : 'Y', (real)t.y[i], ref[i]);
                }
            }
            if constexpr (Kind == single) {
                rvec x(t.conv.fed.begin(), t.conv.fed.end());
                auto const r = stream(x, hf);
                for (std::size_t i = 0; i < r.size(); ++i) {
                    mc::require(dist(t.conv.got[i], r[i]) <= tolerance<F>(x, hf, 2 * shapes[t.f].B), "%s after [%s ]: sample %zu of the processor that runs inside the callback is %Lg, expected %Lg", e.name,
                                text().c_str(), i, (real)t.conv.got[i], r[i]);
                }
            }
        }
        void apply(int o)
        {
            switch (o) {
            case 0: install(0, 0); break;
            case 1: install(0, 1); break;
            case 2: install(1, 2); break;
            case 3: feed(0, 1); break;
            case 4: feed(1, 2); break;
            case 5: s[0] = s[1]; break;
            case 6: s[1] = s[0]; break;
            case 7:
                s[0]   = std::move(s[1]);
                s[1].f = -1;
                break;
            case 8: std::swap(s[0], s[1]); break;
            case 9: {
                auto& self = s[0];
                s[0]       = self;
                break;
            }
            }
            mc::transition();
        }
    };

    void words(std::vector<int>& w, std::size_t depth)
    {
        if (w.size() == depth) {
            machine m{*this, w};
            for (auto o : w) {
                m.apply(o);
            }
            auto const fin = [&](int k) { return m.s[k].f < 0 ? std::size_t(0) : shapes[m.s[k].f].P + 1; };
            // alternate, so that each stream continues while the other is in the middle of something
            for (std::size_t i = 0; i < std::max(fin(0), fin(1)); ++i) {
                for (int k = 0; k < 2; ++k) {
                    if (i < fin(k)) {
                        m.feed(k, 1);
                    }
                }
            }
            m.verify(0);
            m.verify(1);
            mc::outcome(hash_values(m.s[0].y));
            mc::states(w.size());
            mc::trace();
            return;
        }
        for (int o = 0; o < n_ops; ++o) {
            w.push_back(o);
            words(w, depth);
            w.pop_back();
        }
    }

    void run()
    {
        auto const depth = std::size_t(mc::thorough() ? 6 : 5);
        for (int a = 0; a < 2; ++a) {
            for (int b = 0; b < n_ops; ++b) {
                mc::check(name, {id, a, b}, [&] {
                    std::vector<int> w{a, b};
                    words(w, depth);
                    mc::sample("%s: all words of length %zu starting with %s %s", name, depth, letters[a], letters[b]);
                });
            }
        }
    }
};

template<typename F>
void all(long id)
{
    using C = std::complex<F>;
    explorer<nc::upols_convolver<C>, F, plain>{"upols", id}.run();
    explorer<nc::upola_convolver<C>, F, plain>{"upola", id}.run();
    explorer<nc::split_upols_convolver<C>, F, plain>{"split_upols", id}.run();
    explorer<nc::split_upola_convolver<C>, F, plain>{"split_upola", id}.run();
    explorer<nc::sparse_upols_convolver<C>, F, sparse>{"sparse_upols", id}.run();
    explorer<nc::sparse_upola_convolver<C>, F, sparse>{"sparse_upola", id}.run();
    explorer<nc::upola_convolver_v2<C>, F, chunked>{"chunked_upola", id}.run();
    explorer<nested_processor<nc::overlap_add<C>, F>, F, single>{"overlap_add", id}.run();
    explorer<nested_processor<nc::overlap_save<C>, F>, F, single>{"overlap_save", id}.run();
}

void run()
{
    all<float>(0);
    all<double>(1);
}

#else

// ---------------------------------------------------------------------------------------------- scheduler
using values_t = std::vector<double>;
using body_t   = std::function<values_t(int)>;

struct preemption
{
    int thread;
    long at;
};

struct scheduler
{
    std::mutex m;
    std::condition_variable cv;
    int turn{0};
    bool done[2]{};
    bool free_running{false};  // a thread could not be scheduled (it waits for a lock of the other one)
    long count[2]{};
    std::vector<preemption> plan;
    std::size_t next{0};
};
scheduler* active{nullptr};
thread_local int self{-1};

void wait_turn(std::unique_lock<std::mutex>& l, int me)
{
    auto& s = *active;
    if (!s.cv.wait_for(l, std::chrono::seconds(4), [&] { return s.free_running || s.turn == me; })) {
        s.free_running = true;
        s.cv.notify_all();
    }
}

struct shared
{
    long count[2];
    long n[2];
    double v[2][4096];
};

/// one execution in a fresh process; returns false if it crashed
auto execute(body_t const& body, int va, int vb, std::vector<preemption> const& plan, int only, shared* mem) -> bool
{
    std::memset(mem, 0, sizeof(shared));
    auto const pid = ::fork();
    mc::require(pid >= 0, "fork failed");
    if (pid == 0) {
        mc::arm(60);
        scheduler s;
        s.plan = plan;
        s.turn = only == 1 ? 1 : 0;
        if (!plan.empty()) {
            s.turn = plan[0].thread;
        }
        active   = &s;
        auto job = [&](int me, int variant) {
            {
                std::unique_lock l{s.m};
                wait_turn(l, me);
            }
            self          = me;
            auto const r  = body(variant);
            self          = -1;
            mem->n[me]    = long(r.size());
            for (std::size_t i = 0; i < r.size() && i < 4096; ++i) {
                mem->v[me][i] = r[i];
            }
            std::unique_lock l{s.m};
            mem->count[me] = s.count[me];
            s.done[me]     = true;
            s.turn         = 1 - me;
            s.cv.notify_all();
        };
        {
            std::vector<std::thread> t;
            for (int k = 0; k < 2; ++k) {
                if (only < 0 || only == k) {
                    t.emplace_back(job, k, k == 0 ? va : vb);
                }
            }
            for (auto& x : t) {
                x.join();
            }
        }
        ::_exit(0);
    }
    int status = 0;
    ::waitpid(pid, &status, 0);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

}  // namespace

extern "C" void neo_shim_access()
{
    if (self < 0) {
        return;
    }
    auto& s      = *active;
    auto const c = ++s.count[self];
    if (s.next >= s.plan.size() || s.plan[s.next].thread != self || s.plan[s.next].at != c || s.free_running) {
        return;  // only the running thread looks at the plan
    }
    auto const me = self;
    self          = -1;
    {
        std::unique_lock l{s.m};
        ++s.next;
        if (!s.done[1 - me]) {
            s.turn = 1 - me;
            s.cv.notify_all();
            wait_turn(l, me);
        }
    }
    self = me;
}

namespace {

auto memory() -> shared*
{
    static auto* p = static_cast<shared*>(::mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return p;
}

void explore(char const* name, body_t const& body)
{
    // variant 0: the object of one size; 1: another size; 2: the size of 0, other data
    for (int other : {1, 2}) {
        for (int swap = 0; swap < (other == 1 ? 2 : 1); ++swap) {
            mc::check(name, {other, swap}, [&] {
                auto const va = swap == 0 ? 0 : other;
                auto const vb = swap == 0 ? other : 0;
                auto* mem     = memory();
                values_t want[2];
                long points[2];
                for (int k = 0; k < 2; ++k) {
                    mc::require(execute(body, va, vb, {}, k, mem), "%s: the object does not even work alone", name);
                    want[k].assign(mem->v[k], mem->v[k] + std::min(mem->n[k], 4096L));
                    points[k] = mem->count[k];
                    mc::require(points[k] > 0 && !want[k].empty(), "%s: no scheduling points", name);
                }
                auto verify = [&](std::vector<preemption> const& plan) {
                    std::string text;
                    for (auto p : plan) {
                        text += mc::format(" thread %d at access %ld of %ld", p.thread, p.at, points[p.thread]);
                    }
                    mc::require(execute(body, va, vb, plan, -1, mem), "%s: crash when preempted:%s", name, text.c_str());
                    for (int k = 0; k < 2; ++k) {
                        mc::require(mem->n[k] == long(want[k].size()), "%s preempted:%s: thread %d returned %ld values, alone %zu", name, text.c_str(), k, mem->n[k], want[k].size());
                        mc::require(std::memcmp(mem->v[k], want[k].data(), want[k].size() * sizeof(double)) == 0,
                                    "%s: two objects used by two threads disturb each other: preempted:%s, the results of thread %d differ from a run of its own", name, text.c_str(), k);
                    }
                    mc::transition(plan.size() + 1);
                    mc::states(1);
                    mc::trace();
                };
                for (long i = 1; i <= points[0]; ++i) {
                    verify({{0, i}});
                }
                auto const grid = mc::thorough() ? 40L : 12L;
                auto const si = std::max(1L, points[0] / grid), sj = std::max(1L, points[1] / grid);
                for (long i = 1; i <= points[0]; i += si) {
                    for (long j = 1; j <= points[1]; j += sj) {
                        verify({{0, i}, {1, j}});
                    }
                }
                mc::outcome(hash_values(want[0]));
                mc::sample("%s: %ld and %ld scheduling points, every single preemption of the first thread", name, points[0], points[1]);
            });
        }
    }
}

auto datum(std::size_t i, int variant) -> double { return double(long((i * 7 + std::size_t(variant) * 5 + 3) % 17) - 8) / 4; }

template<typename V>
void append(values_t& out, V const& v)
{
    if constexpr (requires { v.real(); }) {
        out.push_back(double(v.real()));
        out.push_back(double(v.imag()));
    } else {
        out.push_back(double(v));
    }
}

template<typename Plan>
void complex_plan(char const* name, std::size_t o0, std::size_t o1)
{
    using C = std::complex<float>;
    explore(name, [=](int v) {
        auto p = Plan{nf::from_order, v == 1 ? o1 : o0};
        std::vector<C> x(std::size_t(p.size()));
        for (std::size_t i = 0; i < x.size(); ++i) {
            x[i] = C{float(datum(i, v)), float(datum(i + 5, v))};
        }
        values_t out;
        for (auto d : {nf::direction::forward, nf::direction::backward}) {
            p(span1<C>{x.data(), ext1{x.size()}}, d);
            for (auto c : x) {
                append(out, c);
            }
        }
        return out;
    });
}

template<typename Conv, bool Sparse = false, bool Chunked = false>
void convolver(char const* name)
{
    using C = std::complex<float>;
    explore(name, [](int v) {
        std::size_t const B = v == 1 ? 4 : 2, P = v == 1 ? 2 : 3;
        auto m = matrix<C>{P, B + 1};
        for (std::size_t i = 0; i < m.size(); ++i) {
            m(i / (B + 1), i % (B + 1)) = C{float(datum(i, v)), i % (B + 1) == 0 || i % (B + 1) == B ? 0.0F : float(datum(i + 3, v))};
        }
        auto conv = Conv{};
        if constexpr (Sparse) {
            conv.filter(m.to_mdspan(), [](auto, auto, auto) { return true; });
        } else {
            conv.filter(m.to_mdspan());
        }
        values_t out;
        for (std::size_t b = 0; b < P + 1; ++b) {
            std::vector<float> x(B + (Chunked ? 1 : 0));
            for (std::size_t i = 0; i < x.size(); ++i) {
                x[i] = float(datum(b * B + i, v));
            }
            conv(span1<float>{x.data(), ext1{x.size()}});
            for (auto s : x) {
                append(out, s);
            }
        }
        return out;
    });
}

template<typename Overlap>
void processor(char const* name)
{
    explore(name, [](int v) {
        std::size_t const B = v == 1 ? 4 : 3, L = v == 1 ? 3 : 5;
        auto p = Overlap{B, L};
        values_t out;
        for (int b = 0; b < 3; ++b) {
            std::vector<float> x(B);
            for (std::size_t i = 0; i < B; ++i) {
                x[i] = float(datum(std::size_t(b) * B + i, v));
            }
            p(span1<float>{x.data(), ext1{B}}, [](auto X) {
                for (std::size_t k = 0; k < X.extent(0); ++k) {
                    X[k] = X[k] * 0.5F;
                }
            });
            for (auto s : x) {
                append(out, s);
            }
        }
        return out;
    });
}

void run()
{
    using C = std::complex<float>;
    complex_plan<nf::fft_plan<C>>("fft_plan", 3, 2);
    complex_plan<nf::c2c_stockham_dif2r_plan<C>>("stockham_dif2r", 3, 2);
    complex_plan<nf::c2c_stockham_dif2i_plan<C>>("stockham_dif2i", 3, 2);
    complex_plan<nf::c2c_dif3_plan<C>>("dif3", 2, 1);
    complex_plan<nf::c2c_dif5_plan<C>>("dif5", 1, 2);
    complex_plan<nf::c2c_dit4_plan<C>>("dit4", 2, 1);
    complex_plan<nf::c2c_stockham_dif3_plan<C>>("stockham_dif3", 2, 1);
    complex_plan<nf::c2c_stockham_dif4_plan<C>>("stockham_dif4", 2, 1);
    complex_plan<nf::c2c_stockham_dif5_plan<C>>("stockham_dif5", 1, 2);
    complex_plan<nf::c2c_stockham_dif8_plan<C>>("stockham_dif8", 1, 2);
    explore("split_fft", [](int v) {
        auto p = nf::split_fft_plan<float>{nf::from_order, v == 1 ? std::size_t(2) : std::size_t(3)};
        auto const n = std::size_t(p.size());
        std::vector<float> re(n), im(n);
        for (std::size_t i = 0; i < n; ++i) {
            re[i] = float(datum(i, v));
            im[i] = float(datum(i + 9, v));
        }
        values_t out;
        for (auto d : {nf::direction::forward, nf::direction::backward}) {
            p(neo::split_complex{span1<float>{re.data(), ext1{n}}, span1<float>{im.data(), ext1{n}}}, d);
            for (std::size_t i = 0; i < n; ++i) {
                append(out, re[i]);
                append(out, im[i]);
            }
        }
        return out;
    });
    explore("rfft", [](int v) {
        auto p       = nf::rfft_plan<float>{nf::from_order, v == 1 ? std::size_t(2) : std::size_t(3)};
        auto const n = std::size_t(p.size());
        std::vector<float> x(n);
        std::vector<C> y(n / 2 + 1);
        values_t out;
        for (int r = 0; r < 2; ++r) {
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = float(datum(i + std::size_t(r), v));
            }
            nf::rfft(p, span1<float const>{x.data(), ext1{n}}, span1<C>{y.data(), ext1{y.size()}});
            for (auto c : y) {
                append(out, c);
            }
            nf::irfft(p, span1<C const>{y.data(), ext1{y.size()}}, span1<float>{x.data(), ext1{n}});
            for (auto c : x) {
                append(out, c);
            }
        }
        return out;
    });
    explore("dft", [](int v) {
        auto p       = nf::dft_plan<C>{v == 1 ? std::size_t(5) : std::size_t(3)};
        auto const n = std::size_t(p.size());
        std::vector<C> x(n), y(n);
        values_t out;
        for (int r = 0; r < 2; ++r) {
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = C{float(datum(i, v)), float(datum(i + 4, v))};
            }
            auto in = span1<C const>{x.data(), ext1{n}};
            auto to = span1<C>{y.data(), ext1{n}};
            r == 0 ? nf::dft(p, in, to) : nf::idft(p, in, to);
            for (auto c : y) {
                append(out, c);
            }
        }
        return out;
    });
    explore("dct2", [](int v) {
        auto p       = nf::fallback_dct2_plan<float>{nf::from_order, v == 1 ? std::size_t(2) : std::size_t(3)};
        auto const n = std::size_t(p.size());
        std::vector<float> x(n);
        values_t out;
        for (int r = 0; r < 2; ++r) {
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = float(datum(i, v + r));
            }
            p(span1<float>{x.data(), ext1{n}});
            for (auto c : x) {
                append(out, c);
            }
        }
        return out;
    });
    explore("stft", [](int v) {
        nf::stft_options<float> o{};
        o.frame_size     = v == 1 ? 2 : 4;
        o.transform_size = 4;
        o.overlap_size   = v == 1 ? 1 : 2;
        auto p           = nf::stft_plan<float>{o};
        values_t out;
        for (int r = 0; r < 2; ++r) {
            std::vector<float> x(6);
            for (std::size_t i = 0; i < x.size(); ++i) {
                x[i] = float(datum(i, v + r));
            }
            auto y = p(Kokkos::mdspan<float const, ext2>{x.data(), ext2{1, 6}});
            for (std::size_t b = 0; b < y.extent(1); ++b) {
                for (std::size_t c = 0; c < y.extent(2); ++c) {
                    append(out, y(0, b, c));
                }
            }
        }
        return out;
    });
    explore("one_shot", [](int v) {
        std::vector<float> a(v == 1 ? 5 : 3), b(v == 1 ? 2 : 3);
        for (std::size_t i = 0; i < a.size(); ++i) {
            a[i] = float(datum(i, v));
        }
        for (std::size_t i = 0; i < b.size(); ++i) {
            b[i] = float(datum(i + 3, v));
        }
        auto A = span1<float const>{a.data(), ext1{a.size()}};
        auto B = span1<float const>{b.data(), ext1{b.size()}};
        values_t out;
        auto f = nc::fft_convolve(A, B);
        auto d = nc::direct_convolve(A, B);
        for (std::size_t i = 0; i < f.extent(0); ++i) {
            append(out, f(i));
            append(out, d(i));
        }
        return out;
    });
    explore("partition_normalise", [](int v) {
        std::size_t const n = v == 1 ? 5 : 7;
        std::vector<float> x(2 * n);
        for (std::size_t i = 0; i < x.size(); ++i) {
            x[i] = float(datum(i, v));
        }
        auto m = Kokkos::mdspan<float, ext2>{x.data(), ext2{2, n}};
        neo::normalize_energy(m);
        auto p = nc::uniform_partition(Kokkos::mdspan<float const, ext2>{x.data(), ext2{2, n}}, 2);
        values_t out;
        for (auto s : x) {
            append(out, s);
        }
        for (std::size_t a = 0; a < p.extent(0); ++a) {
            for (std::size_t b = 0; b < p.extent(1); ++b) {
                for (std::size_t c = 0; c < p.extent(2); ++c) {
                    append(out, p(a, b, c));
                }
            }
        }
        return out;
    });
    explore("compressed_fdl", [](int v) {
        std::size_t const r = v == 1 ? 2 : 3, c = v == 1 ? 5 : 3;
        auto f = nc::compressed_fdl<C, neo::scalar_complex<std::int16_t>>{Kokkos::dextents<std::size_t, 2>{r, c}};
        values_t out;
        for (std::size_t i = 0; i < r + 1; ++i) {
            std::vector<C> x(c);
            for (std::size_t k = 0; k < c; ++k) {
                x[k] = C{float(datum(k + i, v)) / 4, float(datum(k + i + 4, v)) / 4};
            }
            f.insert(span1<C const>{x.data(), ext1{c}}, i % r);
            auto y = f[i % r];
            for (std::size_t k = 0; k < c; ++k) {
                append(out, C(y[k]));
            }
        }
        return out;
    });
    convolver<nc::upols_convolver<C>>("upols");
    convolver<nc::upola_convolver<C>>("upola");
    convolver<nc::split_upols_convolver<C>>("split_upols");
    convolver<nc::sparse_upola_convolver<C>, true>("sparse_upola");
    convolver<nc::upola_convolver_v2<C>, false, true>("chunked_upola");
    processor<nc::overlap_add<C>>("overlap_add");
    processor<nc::overlap_save<C>>("overlap_save");
}

#endif

}  // namespace

MC_MAIN(run)
