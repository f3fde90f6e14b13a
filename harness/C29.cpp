// MC-TITLE: The command-line convolver writes the normalised convolution of its files
// MC-TECH: the real main() runs on every combination of file lengths around multiples of its block size, channel counts, rates and file faults, on in-memory files; the file it leaves behind is compared with the convolution sum and every write on the way is recorded
// MC-QUICK: v3
// MC-THOROUGH: gcc sse2 v3rel
// MC-PARTS: 1
// MC-INCLUDE: repo:extra/cli/src verif:stubs/cli
// MC-BOUNDS: Signals of 1, 2, 3, 100, B-1, B, B+1, 2B-1, 2B, 2B+1 frames (B = the tool's block of 32768) x filters of 1, 2, 100, B-1, B, B+1, 2B, 2B+1 frames, 1..3 channels (short files to 32); 16 sample rates from 1 Hz to 2.8 MHz; impulses at block boundaries and a sparse comb, dense short files; every fault of either file (missing, truncated, empty, other channel count, other sample rate) a full or unwritable medium at every opening and write of the output, transient or lasting; and every wrong argument count 1..6.
// MC-ASSUME: dr_wav and {fmt} are replaced by stand-ins (stubs/cli) with in-memory files; the last file written may come from the half-precision convolver, so values are compared to 16-bit precision there and to single precision for the writes before it.
#include "model.hpp"

#define main neo_cli_main
#include "convolver.cpp"
#undef main

using namespace model;

namespace {

using track = std::vector<std::map<std::size_t, real>>;  // sparse samples per channel

auto store(std::string const& name, track const& t, std::size_t frames, unsigned rate)
{
    auto& f    = wavstub::files[name];
    f          = {};
    f.channels = unsigned(t.size());
    f.rate     = rate;
    f.interleaved.assign(frames * t.size(), 0.0F);
    for (std::size_t c = 0; c < t.size(); ++c) {
        for (auto const& [i, v] : t[c]) {
            f.interleaved[i * t.size() + c] = float(v);
        }
    }
    f.announced = frames;
}

auto tool(std::vector<std::string> args) -> int
{
    std::vector<char*> argv;
    for (auto& a : args) {
        argv.push_back(a.data());
    }
    argv.push_back(nullptr);
    auto const rc = neo_cli_main(int(args.size()), argv.data());
    mc::transition();
    mc::require(wavstub::open_files == 0, "%d wav files were left open", wavstub::open_files);
    mc::require(wavstub::misuse == 0, "%d operations on a file that is not open", wavstub::misuse);
    return rc;
}

auto make(std::size_t channels, std::vector<std::size_t> const& at, std::size_t frames, int salt) -> track
{
    track t(channels);
    for (std::size_t c = 0; c < channels; ++c) {
        for (std::size_t k = 0; k < at.size(); ++k) {
            if (at[k] < frames) {
                t[c][at[k]] = real(long((k * 5 + c * 3 + std::size_t(salt) * 7) % 13) - 6) / 4 + real(0.125);
            }
        }
    }
    return t;
}

void pair(std::size_t S, std::size_t L, std::size_t channels, bool comb, unsigned rate = 48000)
{
    std::size_t const B = 32768;
    std::vector<std::size_t> xs, hs;
    if (comb) {
        xs = {0, 1, 7, B - 1, B, B + 1, 2 * B - 1, 2 * B};
        hs = {0, 1, 5, B - 1, B, 2 * B - 1, 2 * B};
    } else {
        for (std::size_t i = 0; i < 100; ++i) {
            xs.push_back(i);
            hs.push_back(i);
        }
    }
    if (S > 0) {
        xs.push_back(S - 1);
    }
    hs.push_back(L - 1);
    auto const x = make(channels, xs, S, 1);
    auto const h = make(channels, hs, L, 4);
    wavstub::files.clear();
    store("signal.wav", x, S, rate);
    store("filter.wav", h, L, rate);
    auto const in1 = wavstub::files["signal.wav"].interleaved;
    auto const in2 = wavstub::files["filter.wav"].interleaved;
    mc::require(tool({"neo", "signal.wav", "filter.wav", "out.wav"}) == 0, "the tool failed on %zu x %zu frames and %zu channels", S, L, channels);
    mc::require(wavstub::files["signal.wav"].interleaved == in1 && wavstub::files["filter.wav"].interleaved == in2, "an input file was overwritten");
    mc::require(wavstub::files.size() == 3 && wavstub::files.count("out.wav") == 1, "the output file is not where it was asked for");
    auto const& out = wavstub::files["out.wav"];
    mc::require(out.closed && out.channels == channels && out.rate == rate && out.format == DR_WAVE_FORMAT_IEEE_FLOAT && out.bits == 32, "output format: %u channels, %u Hz, format %u, %u bits", out.channels, out.rate, out.format, out.bits);
    mc::require(out.interleaved.size() == S * channels, "%zu samples written, expected %zu frames of %zu channels", out.interleaved.size(), S, channels);
    // convolution sum of the sparse tracks, cut to the length of the signal, peak one over all channels
    std::vector<std::map<std::size_t, real>> y(channels);
    real peak = 0;
    for (std::size_t c = 0; c < channels; ++c) {
        for (auto const& [i, a] : x[c]) {
            for (auto const& [j, b] : h[c]) {
                if (i + j < S) {
                    y[c][i + j] += a * b;
                }
            }
        }
        for (auto const& [i, v] : y[c]) {
            peak = std::max(peak, std::abs(v));
        }
    }
    mc::require(!out.versions.empty() && out.versions.back() == out.interleaved, "the output file was not finished");
    std::size_t precise = 0;
    for (auto const& version : out.versions) {
        mc::require(version.size() == S * channels, "%zu samples written, expected %zu frames of %zu channels", version.size(), S, channels);
        real worst = 0;
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < S; ++i) {
                auto const it   = y[c].find(i);
                auto const want = (it == y[c].end() ? 0.0L : it->second) / (peak == 0 ? 1 : peak);
                auto const got  = real(version[i * channels + c]);
                mc::require(std::abs(got - want) <= 4e-2L, "signal %zu, filter %zu frames, %zu channels: output frame %zu of channel %zu is %Lg, expected %Lg", S, L, channels, i, c, got, want);
                worst = std::max(worst, std::abs(got - want));
            }
        }
        precise += worst <= 1e-4L ? 1 : 0;
    }
#if defined(NEO_HAS_BUILTIN_FLOAT16)
    mc::require(precise + 1 >= out.versions.size(), "%zu of %zu convolvers are not accurate to single precision", out.versions.size() - precise, out.versions.size());
#else
    mc::require(precise == out.versions.size(), "%zu of %zu convolvers are not accurate to single precision", out.versions.size() - precise, out.versions.size());
#endif
    mc::trace();
    mc::states(1);
}

void faults()
{
    auto const x = make(2, {0, 3, 9}, 10, 1);
    auto const h = make(2, {0, 2}, 4, 3);
    auto fresh   = [&] {
        wavstub::files.clear();
        store("signal.wav", x, 10, 48000);
        store("filter.wav", h, 4, 48000);
        // an earlier result that a failing run must leave alone
        store("out.wav", make(1, {0}, 3, 1), 3, 8000);
    };
    auto const rejected = [&](char const* what) {
        auto const before = wavstub::files["out.wav"].interleaved;
        mc::require(tool({"neo", "signal.wav", "filter.wav", "out.wav"}) != 0, "%s: the tool reports success", what);
        mc::require(wavstub::files["out.wav"].interleaved == before && wavstub::files["out.wav"].writes == 0, "%s: an output file was written", what);
        mc::states(1);
        mc::trace();
    };
    for (auto const* name : {"signal.wav", "filter.wav"}) {
        fresh();
        wavstub::files.erase(name);
        rejected("missing file");
        fresh();
        wavstub::files[name].announced += 5;
        rejected("truncated file");
        fresh();
        wavstub::files[name].interleaved.clear();
        wavstub::files[name].announced = 0;
        rejected("empty file");
        fresh();
        wavstub::files[name].rate = 44100;
        rejected("sample rate mismatch");
        fresh();
        store(name, make(1, {0, 2}, 4, 3), 4, 48000);
        rejected("channel mismatch");
        fresh();
        store(name, make(3, {0, 2}, 4, 3), 4, 48000);
        rejected("channel mismatch");
    }
    fresh();
    wavstub::files.erase("signal.wav");
    wavstub::files.erase("filter.wav");
    rejected("both files missing");
    fresh();
    for (auto const* name : {"signal.wav", "filter.wav"}) {
        wavstub::files[name].interleaved.clear();
        wavstub::files[name].announced = 0;
    }
    rejected("both files empty");
    for (std::size_t n = 1; n <= 6; ++n) {
        if (n == 4) {
            continue;
        }
        fresh();
        std::vector<std::string> args = {"neo", "signal.wav", "filter.wav", "out.wav", "more", "more"};
        args.resize(n);
        mc::require(tool(args) != 0, "%zu arguments were accepted", n);
        mc::require(wavstub::files["out.wav"].writes == 0, "wrong arguments, but an output file was written");
        mc::states(1);
    }
    // silence stays silence
    fresh();
    store("signal.wav", track(2), 10, 48000);
    mc::require(tool({"neo", "signal.wav", "filter.wav", "out.wav"}) == 0, "a silent signal was rejected");
    for (auto v : wavstub::files["out.wav"].interleaved) {
        mc::require(v == 0.0F, "silence was turned into %g", double(v));
    }
    fresh();
    store("filter.wav", track(2), 4, 48000);
    mc::require(tool({"neo", "signal.wav", "filter.wav", "out.wav"}) == 0, "a silent filter was rejected");
    for (auto v : wavstub::files["out.wav"].interleaved) {
        mc::require(v == 0.0F, "a silent filter produced %g", double(v));
    }
}

// every fault of the medium the result is written to, at every operation: success means that the file is complete
void write_faults(bool at_open, bool sticks, int n, bool exists)
{
    wavstub::files.clear();
    store("signal.wav", make(2, {0, 3, 9}, 10, 1), 10, 48000);
    store("filter.wav", make(2, {0, 2}, 4, 3), 4, 48000);
    if (exists) {
        store("out.wav", make(1, {0}, 3, 1), 3, 8000);
    }
    wavstub::fault_sticks = sticks;
    wavstub::fault_open   = at_open ? n : 0;
    wavstub::fault_write  = at_open ? 0 : n;
    auto const rc         = tool({"neo", "signal.wav", "filter.wav", "out.wav"});
    wavstub::fault_open = wavstub::fault_write = 0;
    if (rc == 0) {
        auto const it = wavstub::files.find("out.wav");
        mc::require(it != wavstub::files.end() && it->second.closed && it->second.channels == 2 && it->second.rate == 48000 && it->second.interleaved.size() == 20,
                    "%s %d of the output failed%s, but the tool reports success without a complete output file", at_open ? "opening" : "write", n, sticks ? " for good" : "");
    }
    mc::require(wavstub::files["signal.wav"].interleaved.size() == 20 && wavstub::files["filter.wav"].interleaved.size() == 8, "an input file was overwritten");
    mc::states(1);
    mc::trace();
}

void run()
{
    std::size_t const B = 32768;
    for (std::size_t S : {std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(100), B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1}) {
        for (std::size_t L : {std::size_t(1), std::size_t(2), std::size_t(100), B - 1, B, B + 1, 2 * B, 2 * B + 1}) {
            for (std::size_t ch = 1; ch <= 3; ++ch) {
                mc::check("files", {long(S), long(L), long(ch)}, [=] { pair(S, L, ch, true); });
            }
            mc::check("dense", {long(S), long(L)}, [=] { pair(S, L, 2, false); });
        }
    }
    for (unsigned rate : {1U, 8000U, 11025U, 22050U, 32000U, 32768U, 44100U, 65535U, 65536U, 88200U, 96000U, 176400U, 192000U, 384000U, 768000U, 2822400U}) {
        mc::check("rates", {long(rate)}, [=] { pair(10, 4, 2, true, rate); });
    }
    for (std::size_t ch : {4, 5, 6, 8, 12, 16, 32}) {
        mc::check("wide", {long(ch)}, [=] { pair(7, 5, ch, true); });
    }
    mc::check("faults", {}, [] { faults(); });
    for (int n = 1; n <= 5; ++n) {
        for (int bits = 0; bits < 8; ++bits) {
            mc::check("write-faults", {n, bits}, [=] { write_faults((bits & 1) != 0, (bits & 2) != 0, n, (bits & 4) != 0); });
        }
    }
    mc::sample("signal of 2B+1 frames, filter of B+1 frames, 3 channels");
}

}  // namespace
MC_MAIN(run)
