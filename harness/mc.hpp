// Minimal explicit enumeration runtime shared by every harness.
//
// A harness enumerates *cases* (a scenario name plus integer coordinates).  Each case is one
// execution (or one exhaustively enumerated family of executions) of the real code compared with a
// reference model.  The runtime shards the enumeration, records the case in progress so that a crash
// can be attributed, counts states / transitions / validated traces, and stops at the first violation
// that is not a listed known finding.
#pragma once

#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct failure : std::exception
{
    std::string msg;
    explicit failure(std::string m) : msg(std::move(m)) {}
    [[nodiscard]] auto what() const noexcept -> char const* override { return msg.c_str(); }
};

struct context
{
    unsigned shard{0};
    unsigned shards{1};
    bool thorough{false};
    std::string out;
    std::string replay;
    int case_limit{60};
    std::vector<std::string> known;

    std::uint64_t counter{0};
    std::uint64_t cases{0};
    std::uint64_t states_counted{0};
    std::uint64_t transitions{0};
    std::uint64_t traces{0};
    std::unordered_set<std::uint64_t> seen;
    std::unordered_set<std::uint64_t> outcomes;
    std::map<std::string, std::uint64_t> per_scenario;
    std::vector<std::string> samples;
    std::vector<std::string> known_hit;
    char* current{nullptr};
};

inline auto ctx() -> context&
{
    static context c;
    return c;
}

[[nodiscard]] inline auto thorough() -> bool { return ctx().thorough; }

inline auto vformat(char const* fmt, va_list ap) -> std::string
{
    char buf[4096];
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    return buf;
}

__attribute__((format(printf, 1, 2))) inline auto format(char const* fmt, ...) -> std::string
{
    va_list ap;
    va_start(ap, fmt);
    auto s = vformat(fmt, ap);
    va_end(ap);
    return s;
}

[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(char const* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    auto s = vformat(fmt, ap);
    va_end(ap);
    throw failure{s};
}

__attribute__((format(printf, 2, 3))) inline void require(bool ok, char const* fmt, ...)
{
    if (ok) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    auto s = vformat(fmt, ap);
    va_end(ap);
    throw failure{s};
}

// --- hashing -----------------------------------------------------------------------------------
struct hasher
{
    std::uint64_t h{0xcbf29ce484222325ULL};
    auto bytes(void const* p, std::size_t n) -> hasher&
    {
        auto const* b = static_cast<unsigned char const*>(p);
        for (std::size_t i = 0; i < n; ++i) {
            h = (h ^ b[i]) * 0x100000001b3ULL;
        }
        h ^= h >> 29;
        return *this;
    }
    template<typename T>
    auto add(T const& v) -> hasher&
    {
        static_assert(std::is_trivially_copyable_v<T>);
        return bytes(&v, sizeof(T));
    }
    template<typename T>
    auto add(std::vector<T> const& v) -> hasher&
    {
        return bytes(v.data(), v.size() * sizeof(T)).add(v.size());
    }
};

// --- coverage counters -----------------------------------------------------------------------------
/// a canonical state, deduplicated
inline void state(std::uint64_t h) { ctx().seen.insert(h); }
/// n states which the enumeration visits once each by construction (nested loops over a product domain)
inline void states(std::uint64_t n) { ctx().states_counted += n; }
/// n applications of an operation of the code under test
inline void transition(std::uint64_t n = 1) { ctx().transitions += n; }
/// n complete executions compared with the reference model
inline void trace(std::uint64_t n = 1) { ctx().traces += n; }
/// an observed outcome, for reporting how many different ones there were
inline void outcome(std::uint64_t h)
{
    if (ctx().outcomes.size() < 2'000'000) {
        ctx().outcomes.insert(h);
    }
}
__attribute__((format(printf, 1, 2))) inline void sample(char const* fmt, ...)
{
    if (ctx().samples.size() >= 3) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    ctx().samples.push_back(vformat(fmt, ap));
    va_end(ap);
}

inline auto json_escape(std::string const& s) -> std::string
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

inline void write_result(char const* status, std::string const& cs, std::string const& msg)
{
    auto& c = ctx();
    if (c.out.empty()) {
        std::printf("%s case=[%s] %s\n", status, cs.c_str(), msg.c_str());
        std::printf("cases=%lu states=%lu transitions=%lu traces=%lu outcomes=%zu\n", c.cases,
                    c.states_counted + c.seen.size(), c.transitions, c.traces, c.outcomes.size());
        for (auto const& [k, v] : c.per_scenario) {
            std::printf("  %-40s %lu\n", k.c_str(), v);
        }
        std::fflush(stdout);
        return;
    }
    auto tmp = c.out + ".tmp";
    auto* f  = std::fopen(tmp.c_str(), "w");
    if (f == nullptr) {
        std::perror("mc: result");
        std::_Exit(4);
    }
    std::fprintf(f, "{\"status\":\"%s\",\"case\":\"%s\",\"message\":\"%s\",\n", status, json_escape(cs).c_str(),
                 json_escape(msg).c_str());
    std::fprintf(f, "\"cases\":%lu,\"states\":%lu,\"transitions\":%lu,\"traces\":%lu,\"outcomes\":%zu,\n", c.cases,
                 c.states_counted + c.seen.size(), c.transitions, c.traces, c.outcomes.size());
    std::fprintf(f, "\"scenarios\":{");
    auto first = true;
    for (auto const& [k, v] : c.per_scenario) {
        std::fprintf(f, "%s\"%s\":%lu", first ? "" : ",", json_escape(k).c_str(), v);
        first = false;
    }
    std::fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto const& s : c.samples) {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
        first = false;
    }
    std::fprintf(f, "],\n\"known\":[");
    first = true;
    for (auto const& s : c.known_hit) {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
        first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
    std::rename(tmp.c_str(), c.out.c_str());
}

inline void arm(int seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);  // CPU time of this process: unaffected by machine load
}

/// Run one case.  `body` throws (through fail/require) when the property is violated.
template<typename Body>
void check(char const* scenario, std::vector<long> const& params, Body&& body)
{
    auto& c       = ctx();
    auto const id = c.counter++;
    std::string name{scenario};
    for (auto p : params) {
        name += ' ';
        name += std::to_string(p);
    }
    if (!c.replay.empty()) {
        if (name != c.replay) {
            return;
        }
    } else if (id % c.shards != c.shard) {
        return;
    }
    if (c.current != nullptr) {
        std::snprintf(c.current, 4000, "%s", name.c_str());
    }
    ++c.cases;
    ++c.per_scenario[scenario];
    arm(c.case_limit);
    std::string msg;
    try {
        body();
        arm(0);
        return;
    } catch (failure const& f) {
        msg = f.msg;
    } catch (std::exception const& e) {
        msg = std::string{"unexpected exception: "} + e.what();
    } catch (...) {
        msg = "unexpected exception";
    }
    arm(0);
    for (auto const& k : c.known) {
        if (k == name) {
            c.known_hit.push_back(name);
            return;
        }
    }
    write_result("violation", name, msg);
    std::fprintf(stderr, "violation: %s: %s\n", name.c_str(), msg.c_str());
    std::_Exit(1);
}

inline auto run_main(int argc, char** argv, void (*run)()) -> int
{
    auto& c = ctx();
    std::string cur;
    for (int i = 1; i < argc; ++i) {
        std::string a{argv[i]};
        auto next = [&] { return std::string{argv[++i]}; };
        if (a == "--shard") {
            c.shard  = static_cast<unsigned>(std::stoul(next()));
            c.shards = static_cast<unsigned>(std::stoul(next()));
        } else if (a == "--tier") {
            c.thorough = next() == "thorough";
        } else if (a == "--out") {
            c.out = next();
        } else if (a == "--current") {
            cur = next();
        } else if (a == "--replay") {
            c.replay = next();
        } else if (a == "--case-limit") {
            c.case_limit = std::stoi(next());
        } else if (a == "--known") {
            c.known.push_back(next());
        }
    }
    if (!cur.empty()) {
        auto fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ::ftruncate(fd, 4096) != 0) {
            return 4;
        }
        auto* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) {
            return 4;
        }
        c.current = static_cast<char*>(p);
        ::close(fd);
    }
    std::signal(SIGVTALRM, [](int) {
        static char const m[] = "mc: case limit exceeded (hang)\n";
        auto r = ::write(2, m, sizeof(m) - 1);
        (void)r;
        ::_exit(3);
    });
    run();
    if (!c.replay.empty() && c.cases == 0) {
        std::fprintf(stderr, "mc: replay case not found: %s\n", c.replay.c_str());
        return 4;
    }
    write_result("ok", "", "");
    return 0;
}

}  // namespace mc

#define MC_MAIN(fn)                                                                                                    \
    int main(int argc, char** argv) { return mc::run_main(argc, argv, fn); }
