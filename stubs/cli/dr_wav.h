// Stand-in for dr_wav: "files" live in a table in memory; reads and writes move interleaved float frames.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

using drwav_uint64 = std::uint64_t;
using drwav_uint32 = std::uint32_t;
using drwav_uint16 = std::uint16_t;
using drwav_bool32 = std::uint32_t;
enum drwav_container { drwav_container_riff, drwav_container_w64, drwav_container_rf64 };
enum { DR_WAVE_FORMAT_PCM = 1, DR_WAVE_FORMAT_IEEE_FLOAT = 3 };
#define DRWAV_TRUE 1
#define DRWAV_FALSE 0
struct drwav_allocation_callbacks;

namespace wavstub {
struct content
{
    unsigned channels{0};
    unsigned rate{0};
    std::vector<float> interleaved;
    std::uint64_t announced{0};  ///< frames in the header (more than there are: a truncated file)
    unsigned format{DR_WAVE_FORMAT_IEEE_FLOAT};
    unsigned bits{32};
    int writes{0};
    std::vector<std::vector<float>> versions;  ///< what every finished write of this file left behind
    bool closed{true};
};
inline std::map<std::string, content> files;
inline int open_files = 0;
inline int misuse     = 0;      ///< operations on a file that could not be opened (the real library follows a null pointer)
inline int fault_open  = 0;     ///< the n-th file opened for writing from now on cannot be opened (0: never)
inline int fault_write = 0;     ///< the n-th write from now on stops half way (0: never)
inline bool fault_sticks = false;  ///< ... and so do all later ones
inline auto faulty(int& n) -> bool
{
    if (n == 0) {
        return false;
    }
    if (n == 1) {
        n = fault_sticks ? 1 : 0;
        return true;
    }
    --n;
    return false;
}
}  // namespace wavstub

struct drwav_data_format
{
    drwav_container container;
    drwav_uint32 format, channels, sampleRate, bitsPerSample;
};
struct drwav
{
    drwav_uint32 sampleRate;
    drwav_uint16 channels;
    drwav_uint16 bitsPerSample;
    drwav_uint64 totalPCMFrameCount;
    std::string* path;
    drwav_uint64 at;
    bool writing;
};

inline auto drwav_init_file(drwav* w, char const* path, drwav_allocation_callbacks const*) -> drwav_bool32
{
    auto const it = wavstub::files.find(path);
    if (it == wavstub::files.end()) {
        return 0;
    }
    *w = drwav{it->second.rate, static_cast<drwav_uint16>(it->second.channels), 32, it->second.announced, new std::string{path}, 0, false};
    ++wavstub::open_files;
    return 1;
}
inline auto drwav_read_pcm_frames_f32(drwav* w, drwav_uint64 n, float* out) -> drwav_uint64
{
    if (w->path == nullptr || w->writing) {
        ++wavstub::misuse;
        return 0;
    }
    auto& f          = wavstub::files[*w->path];
    auto const total = f.channels == 0 ? 0 : f.interleaved.size() / f.channels;
    drwav_uint64 k   = 0;
    for (; k < n && w->at < total; ++k, ++w->at) {
        for (unsigned c = 0; c < f.channels; ++c) {
            out[k * f.channels + c] = f.interleaved[w->at * f.channels + c];
        }
    }
    return k;
}
inline auto drwav_init_file_write(drwav* w, char const* path, drwav_data_format const* d, drwav_allocation_callbacks const*) -> drwav_bool32
{
    if (wavstub::faulty(wavstub::fault_open)) {
        return 0;
    }
    auto& f    = wavstub::files[path];
    auto const writes = f.writes;
    auto versions     = f.versions;
    f          = {};
    f.versions = versions;
    f.channels = d->channels;
    f.rate     = d->sampleRate;
    f.format   = d->format;
    f.bits     = d->bitsPerSample;
    f.writes   = writes + 1;
    f.closed   = false;
    *w         = drwav{d->sampleRate, static_cast<drwav_uint16>(d->channels), static_cast<drwav_uint16>(d->bitsPerSample), 0, new std::string{path}, 0, true};
    ++wavstub::open_files;
    return 1;
}
inline auto drwav_write_pcm_frames(drwav* w, drwav_uint64 n, void const* data) -> drwav_uint64
{
    if (w->path == nullptr || !w->writing) {
        ++wavstub::misuse;
        return 0;
    }
    auto& f        = wavstub::files[*w->path];
    auto const* p  = static_cast<float const*>(data);
    if (wavstub::faulty(wavstub::fault_write)) {
        n /= 2;
    }
    f.interleaved.insert(f.interleaved.end(), p, p + n * f.channels);
    f.announced += n;
    return n;
}
inline auto drwav_uninit(drwav* w) -> int
{
    if (w->path != nullptr) {
        if (w->writing) {
            auto& f  = wavstub::files[*w->path];
            f.closed = true;
            f.versions.push_back(f.interleaved);
        }
        delete w->path;
        w->path = nullptr;
        --wavstub::open_files;
    }
    return 0;
}
