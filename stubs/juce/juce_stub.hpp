// Stand-in for the parts of JUCE that neo's plugin DSP code uses.  It follows the documented behaviour of
// JUCE 7: newly allocated sample memory is *not* cleared (it is filled with a recognisable large value here),
// setSize() to the size a buffer already has keeps its contents, blocks are views without bounds of their own
// (the storage behind them is a separate heap block per channel, so AddressSanitizer sees an overrun).
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <span>
#include <string>
#include <type_traits>
#include <utility>
#include <cstdlib>
#include <vector>

#define jassert(x) ((void)(x))
#define jassertquiet(x) ((void)(x))
#define jassertfalse ((void)0)
#define JUCE_CALLTYPE

namespace juce {

/// where another thread may take over; a harness that explores schedules installs its scheduler here
inline std::function<void()> scheduler;
inline void yieldPoint()
{
    if (scheduler) {
        scheduler();
    }
}

/// what the stand-in does inside one of its own functions is one step
struct Atomic
{
    std::function<void()> saved{std::exchange(scheduler, nullptr)};
    Atomic()                                 = default;
    Atomic(Atomic const&)                    = delete;
    auto operator=(Atomic const&) -> Atomic& = delete;
    ~Atomic() { scheduler = std::move(saved); }
};

using int8   = std::int8_t;
using uint8  = std::uint8_t;
using int16  = std::int16_t;
using uint16 = std::uint16_t;
using int32  = std::int32_t;
using uint32 = std::uint32_t;
using int64  = long long;
using uint64 = unsigned long long;

struct String : std::string
{
    String() = default;
    String(char const* s) : std::string(s) {}
    String(std::string s) : std::string(std::move(s)) {}
    template<typename T>
        requires std::is_arithmetic_v<T>
    explicit String(T v) : std::string(std::is_integral_v<T> ? std::to_string(static_cast<long long>(v)) : shortest(static_cast<double>(v)))
    {}
    template<typename T>
        requires std::is_floating_point_v<T>
    String(T v, int decimals) : std::string(fixed(static_cast<double>(v), decimals))
    {}
    [[nodiscard]] auto isEmpty() const -> bool { return empty(); }
    [[nodiscard]] auto isNotEmpty() const -> bool { return !empty(); }
    [[nodiscard]] auto toStdString() const -> std::string { return *this; }
    [[nodiscard]] auto contains(std::string const& s) const -> bool { return find(s) != npos; }
    [[nodiscard]] auto startsWith(std::string const& s) const -> bool { return starts_with(s); }
    [[nodiscard]] auto endsWith(std::string const& s) const -> bool { return ends_with(s); }
    [[nodiscard]] auto length() const -> int { return static_cast<int>(size()); }
    [[nodiscard]] auto toRawUTF8() const -> char const* { return c_str(); }
    [[nodiscard]] auto getIntValue() const -> int { return std::atoi(c_str()); }
    [[nodiscard]] auto getFloatValue() const -> float { return std::strtof(c_str(), nullptr); }
    [[nodiscard]] auto getDoubleValue() const -> double { return std::strtod(c_str(), nullptr); }
    template<typename T>
    auto operator<<(T const& v) -> String&
    {
        *this += String(v);
        return *this;
    }
    static auto fixed(double v, int decimals) -> std::string
    {
        char b[400];
        std::snprintf(b, sizeof b, "%.*f", decimals, v);
        return b;
    }
    static auto shortest(double v) -> std::string
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.15g", v);
        return b;
    }
};
using StringRef = String;

/// what uninitialised sample memory holds
inline constexpr double garbage = 1.0e12;

template<typename... Ts>
void ignoreUnused(Ts&&...) noexcept
{}

template<typename T>
constexpr auto exactlyEqual(T a, T b) -> bool
{
    return a == b;
}
template<typename A, typename B>
constexpr auto jmax(A a, B b)
{
    return a < static_cast<A>(b) ? static_cast<A>(b) : a;
}
template<typename A, typename B>
constexpr auto jmin(A a, B b)
{
    return static_cast<A>(b) < a ? static_cast<A>(b) : a;
}
template<typename T, typename... Ts>
    requires(sizeof...(Ts) > 1)
constexpr auto jmax(T a, Ts... b)
{
    return jmax(a, jmax(b...));
}
template<typename T, typename... Ts>
    requires(sizeof...(Ts) > 1)
constexpr auto jmin(T a, Ts... b)
{
    return jmin(a, jmin(b...));
}
template<typename T>
constexpr auto approximatelyEqual(T a, T b) -> bool
{
    return std::abs(a - b) <= std::max(std::numeric_limits<T>::min(), std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b)));
}
template<typename T>
constexpr auto jlimit(T lo, T hi, T v) -> T
{
    return v < lo ? lo : (hi < v ? hi : v);
}
template<typename T>
auto roundToInt(T v) -> int
{
    return std::isnan(static_cast<double>(v)) ? 0 : static_cast<int>(std::nearbyint(static_cast<double>(v)));
}
template<typename T>
constexpr auto isPowerOfTwo(T v) -> bool
{
    return v > 0 && (v & (v - 1)) == 0;
}
inline auto nextPowerOfTwo(int n) noexcept -> int
{
    auto r = 1;
    while (r < n) {
        r *= 2;
    }
    return r;
}

struct FloatVectorOperations
{
    template<typename T, typename S>
    static void copy(T* d, S const* s, int n) { for (int i = 0; i < n; ++i) { d[i] = s[i]; } }
    template<typename T>
    static void clear(T* d, int n) { for (int i = 0; i < n; ++i) { d[i] = T(0); } }
    template<typename T>
    static void fill(T* d, std::type_identity_t<T> v, int n) { for (int i = 0; i < n; ++i) { d[i] = v; } }
    template<typename T>
    static void copyWithMultiply(T* d, T const* s, std::type_identity_t<T> g, int n) { for (int i = 0; i < n; ++i) { d[i] = s[i] * g; } }
    template<typename T>
    static void add(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] += s[i]; } }
    template<typename T>
    static void add(T* d, std::type_identity_t<T> v, int n) { for (int i = 0; i < n; ++i) { d[i] += v; } }
    template<typename T>
    static void add(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] = a[i] + b[i]; } }
    template<typename T>
    static void subtract(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] -= s[i]; } }
    template<typename T>
    static void subtract(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] = a[i] - b[i]; } }
    template<typename T>
    static void addWithMultiply(T* d, T const* s, std::type_identity_t<T> g, int n) { for (int i = 0; i < n; ++i) { d[i] += s[i] * g; } }
    template<typename T>
    static void addWithMultiply(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] += a[i] * b[i]; } }
    template<typename T>
    static void multiply(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] *= s[i]; } }
    template<typename T>
    static void multiply(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] = a[i] * b[i]; } }
    template<typename T>
    static void multiply(T* d, std::type_identity_t<T> g, int n) { for (int i = 0; i < n; ++i) { d[i] *= g; } }
    template<typename T>
    static void multiply(T* d, T const* s, std::type_identity_t<T> g, int n) { for (int i = 0; i < n; ++i) { d[i] = s[i] * g; } }
    template<typename T>
    static void negate(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] = -s[i]; } }
    template<typename T>
    static void abs(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] = std::abs(s[i]); } }
};

template<typename Type>
class AudioBuffer
{
    std::vector<std::unique_ptr<Type[]>> _mem;
    mutable std::vector<Type*> _ptr;
    int _channels{0};
    int _samples{0};

    static auto fresh(int n) -> std::unique_ptr<Type[]>
    {
        auto p = std::unique_ptr<Type[]>(new Type[static_cast<std::size_t>(std::max(n, 0))]);
        std::fill_n(p.get(), std::max(n, 0), static_cast<Type>(garbage));
        return p;
    }
    void link()
    {
        _ptr.clear();
        for (auto& m : _mem) {
            _ptr.push_back(m.get());
        }
        _ptr.push_back(nullptr);
    }

public:
    using SampleType = Type;

    AudioBuffer() { link(); }
    AudioBuffer(int channels, int samples) { setSize(channels, samples); }
    AudioBuffer(AudioBuffer const& o) { *this = o; }
    AudioBuffer(AudioBuffer&& o) noexcept { *this = std::move(o); }
    auto operator=(AudioBuffer const& o) -> AudioBuffer&
    {
        if (this != &o) {
            setSize(o._channels, o._samples);
            for (int c = 0; c < _channels; ++c) {
                std::copy_n(o.getReadPointer(c), _samples, _mem[static_cast<std::size_t>(c)].get());
            }
        }
        return *this;
    }
    auto operator=(AudioBuffer&& o) noexcept -> AudioBuffer&
    {
        _mem      = std::move(o._mem);
        _channels = std::exchange(o._channels, 0);
        _samples  = std::exchange(o._samples, 0);
        o._mem.clear();
        o.link();
        link();
        return *this;
    }

    void setSize(int channels, int samples, bool keep = false, bool clearExtra = false, bool = false)
    {
        if (channels == _channels && samples == _samples && !_ptr.empty()) {
            return;
        }
        std::vector<std::unique_ptr<Type[]>> mem;
        for (int c = 0; c < channels; ++c) {
            auto p = fresh(samples);
            if (clearExtra) {
                std::fill_n(p.get(), samples, Type(0));
            }
            if (keep && c < _channels) {
                std::copy_n(_mem[static_cast<std::size_t>(c)].get(), std::min(samples, _samples), p.get());
            }
            mem.push_back(std::move(p));
        }
        _mem      = std::move(mem);
        _channels = channels;
        _samples  = samples;
        link();
    }

    [[nodiscard]] auto getNumChannels() const -> int
    {
        auto const n = _channels;
        yieldPoint();
        return n;
    }
    [[nodiscard]] auto getNumSamples() const -> int
    {
        auto const n = _samples;
        yieldPoint();
        return n;
    }
    [[nodiscard]] auto getReadPointer(int c) const -> Type const*
    {
        auto const* p = _mem[static_cast<std::size_t>(c)].get();
        yieldPoint();
        return p;
    }
    [[nodiscard]] auto getReadPointer(int c, int i) const -> Type const* { return getReadPointer(c) + i; }
    [[nodiscard]] auto getWritePointer(int c) -> Type* { return _mem[static_cast<std::size_t>(c)].get(); }
    [[nodiscard]] auto getWritePointer(int c, int i) -> Type* { return getWritePointer(c) + i; }
    [[nodiscard]] auto getArrayOfReadPointers() const -> Type const* const* { return _ptr.data(); }
    [[nodiscard]] auto getArrayOfWritePointers() -> Type* const* { return _ptr.data(); }
    [[nodiscard]] auto getSample(int c, int i) const -> Type { return _mem[static_cast<std::size_t>(c)][static_cast<std::size_t>(i)]; }
    void setSample(int c, int i, Type v) { getWritePointer(c)[i] = v; }
    void addSample(int c, int i, Type v) { getWritePointer(c)[i] += v; }
    void clear() { clear(0, _samples); }
    void clear(int start, int n) { for (int c = 0; c < _channels; ++c) { clear(c, start, n); } }
    void clear(int c, int start, int n) { FloatVectorOperations::clear(getWritePointer(c, start), n); }
    void applyGain(Type g) { applyGain(0, _samples, g); }
    void applyGain(int start, int n, Type g) { for (int c = 0; c < _channels; ++c) { applyGain(c, start, n, g); } }
    void applyGain(int c, int start, int n, Type g) { FloatVectorOperations::multiply(getWritePointer(c, start), g, n); }
    void addFrom(int dc, int ds, AudioBuffer const& s, int sc, int ss, int n, Type g = Type(1))
    {
        addFrom(dc, ds, s.getReadPointer(sc, ss), n, g);
    }
    void addFrom(int dc, int ds, Type const* s, int n, Type g = Type(1))
    {
        FloatVectorOperations::addWithMultiply(getWritePointer(dc, ds), s, g, n);
    }
    void copyFrom(int dc, int ds, AudioBuffer const& s, int sc, int ss, int n)
    {
        FloatVectorOperations::copy(getWritePointer(dc, ds), s.getReadPointer(sc, ss), n);
    }
    void copyFrom(int dc, int ds, Type const* s, int n) { FloatVectorOperations::copy(getWritePointer(dc, ds), s, n); }
    void copyFrom(int dc, int ds, Type const* s, int n, Type g)
    {
        FloatVectorOperations::copyWithMultiply(getWritePointer(dc, ds), s, g, n);
    }
    void makeCopyOf(AudioBuffer const& o, bool = false) { *this = o; }
};

namespace dsp {

template<typename Type>
class AudioBlock
{
    using Mutable = std::remove_const_t<Type>;
    std::vector<Type*> _ptr;
    std::size_t _samples{0};

    template<typename>
    friend class AudioBlock;

public:
    using SampleType  = Type;
    using NumericType = Mutable;

    AudioBlock() = default;
    AudioBlock(Type* const* p, std::size_t channels, std::size_t samples) : _ptr(p, p + channels), _samples(samples) {}
    AudioBlock(Type* const* p, std::size_t channels, std::size_t start, std::size_t samples)
        : _ptr(p, p + channels), _samples(samples)
    {
        for (auto& q : _ptr) {
            q += start;
        }
    }
    AudioBlock(AudioBuffer<Mutable>& b) : _samples(static_cast<std::size_t>(b.getNumSamples()))
    {
        for (int c = 0; c < b.getNumChannels(); ++c) {
            _ptr.push_back(b.getWritePointer(c));
        }
    }
    AudioBlock(AudioBuffer<Mutable> const& b)
        requires std::is_const_v<Type>
        : _samples(static_cast<std::size_t>(b.getNumSamples()))
    {
        for (int c = 0; c < b.getNumChannels(); ++c) {
            _ptr.push_back(b.getReadPointer(c));
        }
    }
    template<typename Other>
        requires(std::is_const_v<Type> and std::is_same_v<Other, Mutable>)
    AudioBlock(AudioBlock<Other> const& o)
        : _ptr(o._ptr.begin(), o._ptr.end()), _samples(o._samples)
    {}

    [[nodiscard]] auto getNumChannels() const noexcept -> std::size_t { return _ptr.size(); }
    [[nodiscard]] auto getNumSamples() const noexcept -> std::size_t { return _samples; }
    [[nodiscard]] auto getChannelPointer(std::size_t c) const -> Type* { return _ptr[c]; }
    [[nodiscard]] auto getSample(int c, int i) const -> Mutable { return _ptr[static_cast<std::size_t>(c)][i]; }
    void setSample(int c, int i, Mutable v) const { _ptr[static_cast<std::size_t>(c)][i] = v; }
    void addSample(int c, int i, Mutable v) const { _ptr[static_cast<std::size_t>(c)][i] += v; }
    [[nodiscard]] auto getSingleChannelBlock(std::size_t c) const -> AudioBlock
    {
        auto r = *this;
        r._ptr = {_ptr[c]};
        return r;
    }
    [[nodiscard]] auto getSubsetChannelBlock(std::size_t c, std::size_t n) const -> AudioBlock
    {
        auto r = *this;
        r._ptr.assign(_ptr.begin() + static_cast<long>(c), _ptr.begin() + static_cast<long>(c + n));
        return r;
    }
    [[nodiscard]] auto getSubBlock(std::size_t start, std::size_t n) const -> AudioBlock
    {
        auto r = *this;
        for (auto& q : r._ptr) {
            q += start;
        }
        r._samples = n;
        return r;
    }
    [[nodiscard]] auto getSubBlock(std::size_t start) const -> AudioBlock { return getSubBlock(start, _samples - start); }
    auto clear() const -> AudioBlock const& { return fill(Mutable(0)); }
    auto fill(Mutable v) const -> AudioBlock const&
    {
        for (auto* q : _ptr) {
            FloatVectorOperations::fill(q, v, static_cast<int>(_samples));
        }
        return *this;
    }
    template<typename Other>
    auto copyFrom(AudioBlock<Other> const& o) const -> AudioBlock const&
    {
        for (std::size_t c = 0; c < std::min(_ptr.size(), o._ptr.size()); ++c) {
            FloatVectorOperations::copy(_ptr[c], o._ptr[c], static_cast<int>(std::min(_samples, o._samples)));
        }
        return *this;
    }
    void copyTo(AudioBuffer<Mutable>& b, std::size_t ss = 0, std::size_t ds = 0, std::size_t n = ~std::size_t(0)) const
    {
        n = std::min({n, _samples - ss, static_cast<std::size_t>(b.getNumSamples()) - ds});
        for (std::size_t c = 0; c < std::min(_ptr.size(), static_cast<std::size_t>(b.getNumChannels())); ++c) {
            std::copy_n(_ptr[c] + ss, n, b.getWritePointer(static_cast<int>(c)) + ds);
        }
    }
    template<typename Other>
    auto add(AudioBlock<Other> const& o) const -> AudioBlock const&
    {
        for (std::size_t c = 0; c < std::min(_ptr.size(), o._ptr.size()); ++c) {
            for (std::size_t i = 0; i < std::min(_samples, o._samples); ++i) {
                _ptr[c][i] += o._ptr[c][i];
            }
        }
        return *this;
    }
    auto operator*=(Mutable g) const -> AudioBlock const& { return multiplyBy(g); }
    auto multiplyBy(Mutable g) const -> AudioBlock const&
    {
        for (auto* q : _ptr) {
            FloatVectorOperations::multiply(q, g, static_cast<int>(_samples));
        }
        return *this;
    }
};

struct ProcessSpec
{
    double sampleRate;
    uint32 maximumBlockSize;
    uint32 numChannels;
};

template<typename T>
struct ProcessContextReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextReplacing(AudioBlock<T>& b) noexcept : _io(b), _in(b) {}
    ProcessContextReplacing(AudioBlock<T>&& b) noexcept : _io(b), _in(b) {}
    static constexpr auto usesSeparateInputAndOutputBlocks() -> bool { return false; }
    [[nodiscard]] auto getInputBlock() const noexcept -> ConstAudioBlockType const& { return _in; }
    [[nodiscard]] auto getOutputBlock() const noexcept -> AudioBlockType& { return const_cast<AudioBlockType&>(_io); }
    bool isBypassed = false;

private:
    AudioBlockType _io;
    ConstAudioBlockType _in;
};

template<typename T>
struct ProcessContextNonReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextNonReplacing(AudioBlock<T const> const& i, AudioBlock<T> const& o) noexcept : _in(i), _out(o) {}
    static constexpr auto usesSeparateInputAndOutputBlocks() -> bool { return true; }
    [[nodiscard]] auto getInputBlock() const noexcept -> ConstAudioBlockType const& { return _in; }
    [[nodiscard]] auto getOutputBlock() const noexcept -> AudioBlockType& { return const_cast<AudioBlockType&>(_out); }
    bool isBypassed = false;

private:
    ConstAudioBlockType _in;
    AudioBlockType _out;
};

template<typename T>
struct WindowingFunction
{
    enum WindowingMethod { rectangular = 0, triangular, hann, hamming, blackman, blackmanHarris, flatTop, kaiser, numWindowingMethods };
    static void fillWindowingTables(T* w, std::size_t n, WindowingMethod m, bool normalise = true, T = T(0)) noexcept
    {
        auto const pi  = 3.14159265358979323846264338327950288;
        auto const arg = [&](std::size_t i, int k) { return std::cos(2.0 * k * pi * double(i) / double(n - 1)); };
        for (std::size_t i = 0; i < n; ++i) {
            auto v = 1.0;
            switch (m) {
            case triangular: v = 1.0 - std::abs((double(i) - double(n - 1) / 2) / (double(n - 1) / 2)); break;
            case hann: v = 0.5 - 0.5 * arg(i, 1); break;
            case hamming: v = 0.54 - 0.46 * arg(i, 1); break;
            case blackman: v = 0.42 - 0.5 * arg(i, 1) + 0.08 * arg(i, 2); break;
            case blackmanHarris: v = 0.35875 - 0.48829 * arg(i, 1) + 0.14128 * arg(i, 2) - 0.01168 * arg(i, 3); break;
            default: break;
            }
            w[i] = static_cast<T>(v);
        }
        if (normalise) {
            auto sum = T(0);
            for (std::size_t i = 0; i < n; ++i) {
                sum += w[i];
            }
            for (std::size_t i = 0; i < n; ++i) {
                w[i] *= T(n) / sum;
            }
        }
    }
};

}  // namespace dsp

// --- audio files: a stream that simply carries the decoded samples -----------------------------------
struct InputStream
{
    virtual ~InputStream() = default;
    AudioBuffer<float> samples;
    double sampleRate{0};
    bool readable{true};  ///< the format is recognised
    bool truncated{false};  ///< decoding fails half way
};
using FileInputStream = InputStream;

/// what a writer put into a file
struct Written
{
    int opened{0};      ///< streams created
    int alive{0};       ///< streams not yet destroyed
    bool refuse{false};     ///< the file cannot be opened for writing
    bool unsupported{false};  ///< no writer for this format
    int headers{0};
    double sampleRate{0};
    unsigned channels{0};
    int bits{0};
    std::vector<std::vector<float>> samples;
};

struct OutputStream
{
    std::shared_ptr<Written> sink;
    OutputStream() = default;
    explicit OutputStream(std::shared_ptr<Written> s) : sink(std::move(s))
    {
        if (sink != nullptr) {
            ++sink->opened;
            ++sink->alive;
        }
    }
    OutputStream(OutputStream const&)                    = delete;
    auto operator=(OutputStream const&) -> OutputStream& = delete;
    virtual ~OutputStream()
    {
        if (sink != nullptr) {
            --sink->alive;
        }
    }
};
using FileOutputStream = OutputStream;

struct Result
{
    bool good{true};
    [[nodiscard]] auto failed() const -> bool { return !good; }
    [[nodiscard]] auto wasOk() const -> bool { return good; }
    [[nodiscard]] auto getErrorMessage() const -> String { return good ? "" : "refused"; }
};
#define DBG(x) ((void)(x))

struct File;
/// the disk behind files that are named by a path
struct Disk
{
    std::map<std::string, std::shared_ptr<InputStream>> content;
    std::map<std::string, std::shared_ptr<Written>> written;
    std::shared_ptr<InputStream> anything;  ///< what every other path holds
    std::map<std::string, int> directories;
    bool readOnly{false};
    static auto get() -> Disk&
    {
        static Disk d;
        return d;
    }
};

struct File
{
    enum SpecialLocationType { userHomeDirectory, userDocumentsDirectory, userDesktopDirectory, userMusicDirectory, tempDirectory };

    std::shared_ptr<InputStream> content;
    std::shared_ptr<Written> sink;
    std::string path;
    File() = default;
    File(String const& p) : path(p) {}
    File(std::shared_ptr<InputStream> c, std::shared_ptr<Written> s) : content(std::move(c)), sink(std::move(s)) {}

    [[nodiscard]] auto stored() const -> std::shared_ptr<InputStream>
    {
        if (content != nullptr || path.empty()) {
            return content;
        }
        auto const it = Disk::get().content.find(path);
        return it != Disk::get().content.end() ? it->second : Disk::get().anything;
    }
    [[nodiscard]] auto existsAsFile() const -> bool { return stored() != nullptr || Disk::get().written.contains(path); }
    [[nodiscard]] auto exists() const -> bool { return existsAsFile() || Disk::get().directories.contains(path); }
    [[nodiscard]] auto createDirectory() const -> Result
    {
        if (Disk::get().readOnly) {
            return {false};
        }
        Disk::get().directories[path] += 1;
        return {};
    }
    [[nodiscard]] static auto getSpecialLocation(SpecialLocationType) -> File { return File{String{"/home/user/Music"}}; }
    [[nodiscard]] auto getChildFile(String const& name) const -> File { return File{String{path + "/" + name}}; }
    [[nodiscard]] auto getNonexistentChildFile(String const& name, String const& suffix, bool = true) const -> File
    {
        auto f = getChildFile(name + suffix);
        for (int i = 2; f.exists(); ++i) {
            f = getChildFile(name + " (" + std::to_string(i) + ")" + suffix);
        }
        return f;
    }
    [[nodiscard]] auto isDirectory() const -> bool { return Disk::get().directories.contains(path); }
    [[nodiscard]] auto hasFileExtension(String const& e) const -> bool { return path.ends_with(e); }
    [[nodiscard]] auto getFileExtension() const -> String { return path.rfind('.') == std::string::npos ? std::string{} : path.substr(path.rfind('.')); }
    [[nodiscard]] auto getParentDirectory() const -> File { return File{String{path.substr(0, path.rfind('/'))}}; }
    [[nodiscard]] auto getFullPathName() const -> String { return path; }
    [[nodiscard]] auto getFileName() const -> String { return path.substr(path.rfind('/') + 1); }
    [[nodiscard]] auto getFileNameWithoutExtension() const -> String
    {
        auto const n = getFileName();
        return std::string(n.substr(0, n.rfind('.')));
    }
    auto operator==(File const& o) const -> bool { return path == o.path && content == o.content && sink == o.sink; }

    [[nodiscard]] auto createInputStream() const -> std::unique_ptr<InputStream>
    {
        yieldPoint();
        auto const from = stored();
        if (from == nullptr) {
            return nullptr;
        }
        auto s = std::make_unique<InputStream>();
        *s     = *from;
        return s;
    }
    [[nodiscard]] auto createOutputStream() const -> std::unique_ptr<OutputStream>
    {
        yieldPoint();
        auto to = sink;
        if (!path.empty()) {
            if (Disk::get().readOnly) {
                return nullptr;
            }
            auto& w = Disk::get().written[path];
            if (w == nullptr) {
                w = std::make_shared<Written>();
            }
            to = w;
        }
        if (to != nullptr && to->refuse) {
            return nullptr;
        }
        return std::make_unique<OutputStream>(to);
    }
};

struct AudioFormatReader
{
    virtual ~AudioFormatReader() = default;
    double sampleRate{0};
    unsigned int numChannels{0};
    int64 lengthInSamples{0};
    std::unique_ptr<InputStream> source;
    auto read(float* const* d, int channels, int64 start, int n) -> bool
    {
        auto const step = Atomic{};
        for (int c = 0; c < channels; ++c) {
            for (int i = 0; i < n; ++i) {
                auto const inside = c < source->samples.getNumChannels() && start + i < source->samples.getNumSamples();
                d[c][i]           = inside ? source->samples.getSample(c, static_cast<int>(start) + i) : 0.0F;
            }
        }
        return !source->truncated;
    }
};

struct AudioFormatManager
{
    bool registered{false};
    void registerBasicFormats() { registered = true; }
    [[nodiscard]] auto getWildcardForAllFormats() const -> String { return registered ? "*.wav" : ""; }
    auto createReaderFor(std::unique_ptr<InputStream> s) -> AudioFormatReader*
    {
        if (s == nullptr || !registered || !s->readable) {
            return nullptr;
        }
        auto* r            = new AudioFormatReader{};
        r->sampleRate      = s->sampleRate;
        r->numChannels     = static_cast<unsigned>(s->samples.getNumChannels());
        r->lengthInSamples = s->samples.getNumSamples();
        r->source          = std::move(s);
        return r;
    }
};

struct StringPairArray
{};

/// owns the stream it writes to, like JUCE's
struct AudioFormatWriter
{
    std::unique_ptr<OutputStream> stream;
    unsigned channels{0};
    virtual ~AudioFormatWriter() = default;
    auto writeFromFloatArrays(float const* const* d, int n, int samples) -> bool
    {
        if (stream->sink == nullptr) {
            return true;
        }
        for (unsigned c = 0; c < channels; ++c) {
            for (int i = 0; i < samples; ++i) {
                stream->sink->samples[c].push_back(static_cast<int>(c) < n ? d[c][i] : 0.0F);
            }
        }
        return true;
    }
};

struct WavAudioFormat
{
    auto createWriterFor(OutputStream* out, double rate, unsigned channels, int bits, StringPairArray const&, int) -> AudioFormatWriter*
    {
        if (out == nullptr || out->sink == nullptr || out->sink->unsupported || !(bits == 8 || bits == 16 || bits == 24 || bits == 32) || channels == 0) {
            return nullptr;
        }
        auto& s      = *out->sink;
        s.headers += 1;
        s.sampleRate = rate;
        s.channels   = channels;
        s.bits       = bits;
        s.samples.assign(channels, {});
        auto* w     = new AudioFormatWriter{};
        w->stream.reset(out);
        w->channels = channels;
        return w;
    }
};

struct AudioSourceChannelInfo
{
    AudioBuffer<float>* buffer;
    int startSample;
    int numSamples;
};

struct MemoryAudioSource
{
    AudioBuffer<float> buffer;
    MemoryAudioSource(AudioBuffer<float>& b, bool, bool = false) : buffer(b) {}
};

/// linear interpolation at ratio * i, silence past the end
struct ResamplingAudioSource
{
    MemoryAudioSource* source;
    double ratio{1};
    ResamplingAudioSource(MemoryAudioSource* s, bool, int) : source(s) {}
    void setResamplingRatio(double r) { ratio = r; }
    void prepareToPlay(int, double) {}
    void getNextAudioBlock(AudioSourceChannelInfo const& info)
    {
        auto const step = Atomic{};
        for (int c = 0; c < info.buffer->getNumChannels(); ++c) {
            for (int i = 0; i < info.numSamples; ++i) {
                auto const at = double(i) * ratio;
                auto const k  = static_cast<int>(at);
                auto const f  = at - k;
                auto get      = [&](int j) { return j < source->buffer.getNumSamples() ? double(source->buffer.getSample(c, j)) : 0.0; };
                info.buffer->setSample(c, info.startSample + i, static_cast<float>(get(k) * (1 - f) + get(k + 1) * f));
            }
        }
    }
};

namespace dsp {

/// filters directly with what the file holds
struct Convolution
{
    struct Latency { int latencyInSamples; };
    struct NonUniform { int headSizeInSamples; };
    enum class Normalise { no, yes };
    enum class Trim { no, yes };
    enum class Stereo { no, yes };

    std::shared_ptr<InputStream> impulse;
    std::vector<std::vector<float>> past;

    void loadImpulseResponse(File const& f, Stereo, Trim, std::size_t, Normalise) 
    {
        auto const step = Atomic{};
        auto const from = f.stored();
        impulse         = from != nullptr && from->readable && from->samples.getNumSamples() > 0 ? from : nullptr;
    }
    void prepare(ProcessSpec const& s)
    {
        auto const step = Atomic{};
        past.assign(s.numChannels, {});
        if (impulse == nullptr || impulse->sampleRate == s.sampleRate) {
            return;
        }
        // at the rate of the host
        auto at        = std::make_shared<InputStream>(*impulse);
        auto source    = MemoryAudioSource(impulse->samples, false);
        auto resampler = ResamplingAudioSource(&source, false, impulse->samples.getNumChannels());
        auto const n   = roundToInt(std::max(1.0, impulse->samples.getNumSamples() * s.sampleRate / impulse->sampleRate));
        at->samples    = AudioBuffer<float>{impulse->samples.getNumChannels(), n};
        at->sampleRate = s.sampleRate;
        resampler.setResamplingRatio(impulse->sampleRate / s.sampleRate);
        resampler.getNextAudioBlock({&at->samples, 0, n});
        impulse = at;
    }
    void reset()
    {
        for (auto& p : past) {
            p.clear();
        }
    }
    template<typename Context>
    void process(Context const& context)
    {
        auto const step = Atomic{};
        auto const& in  = context.getInputBlock();
        auto const& out = context.getOutputBlock();
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < in.getNumSamples(); ++i) {
                past[c].push_back(in.getSample(int(c), int(i)));
                auto y = 0.0;
                auto const n = past[c].size();
                if (impulse == nullptr) {
                    y = past[c].back();
                } else {
                    auto const h = std::min(int(c), impulse->samples.getNumChannels() - 1);
                    for (int k = 0; k < impulse->samples.getNumSamples() && std::size_t(k) < n; ++k) {
                        y += double(past[c][n - 1 - std::size_t(k)]) * double(impulse->samples.getSample(h, k));
                    }
                }
                out.setSample(int(c), int(i), float(y));
            }
        }
    }
};

enum class DryWetMixingRule { linear, balanced, sin3dB, sin4p5dB, sin6dB, squareRoot3dB, squareRoot4p5dB };

/// JUCE's mixer without its 50 ms gain ramps: a new proportion holds from the next mixWetSamples()
template<typename T>
struct DryWetMixer
{
    static inline int misuse{0};  ///< calls that break the mixer's contract

    DryWetMixer() = default;
    explicit DryWetMixer(int) {}
    void setMixingRule(DryWetMixingRule r) { _rule = r; }
    void setWetMixProportion(T p)
    {
        misuse += p < 0 || p > 1;
        _mix = jlimit(T(0), T(1), p);
    }
    void setWetLatency(T l) { _delay = static_cast<std::size_t>(l); }
    void prepare(ProcessSpec const& s)
    {
        misuse += !(s.sampleRate > 0) || s.numChannels == 0;
        _channels = s.numChannels;
        _max      = static_cast<std::size_t>(nextPowerOfTwo(static_cast<int>(s.maximumBlockSize)));
        reset();
    }
    void reset()
    {
        _fifo.assign(_channels, {});
        _line.assign(_channels, std::vector<T>(_delay, T(0)));
    }
    void pushDrySamples(AudioBlock<T const> const& b)
    {
        if (b.getNumChannels() > _fifo.size() || (!_fifo.empty() && _fifo[0].size() + b.getNumSamples() > _max)) {
            misuse += 1;
            return;
        }
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < b.getNumSamples(); ++i) {
                _line[c].push_back(b.getSample(int(c), int(i)));
                _fifo[c].push_back(_line[c].front());
                _line[c].erase(_line[c].begin());
            }
        }
    }
    void mixWetSamples(AudioBlock<T> b)
    {
        auto wet = _mix, dry = T(1) - _mix;
        auto const pi = T(3.14159265358979323846);
        switch (_rule) {
        case DryWetMixingRule::linear: break;
        case DryWetMixingRule::balanced: dry = T(2) * std::min(T(0.5), T(1) - _mix), wet = T(2) * std::min(T(0.5), _mix); break;
        case DryWetMixingRule::sin3dB: dry = std::sin(pi / 2 * (T(1) - _mix)), wet = std::sin(pi / 2 * _mix); break;
        case DryWetMixingRule::sin4p5dB: dry = std::pow(std::sin(pi / 2 * (T(1) - _mix)), T(1.5)), wet = std::pow(std::sin(pi / 2 * _mix), T(1.5)); break;
        case DryWetMixingRule::sin6dB: dry = std::pow(std::sin(pi / 2 * (T(1) - _mix)), T(2)), wet = std::pow(std::sin(pi / 2 * _mix), T(2)); break;
        case DryWetMixingRule::squareRoot3dB: dry = std::sqrt(T(1) - _mix), wet = std::sqrt(_mix); break;
        case DryWetMixingRule::squareRoot4p5dB: dry = std::pow(std::sqrt(T(1) - _mix), T(1.5)), wet = std::pow(std::sqrt(_mix), T(1.5)); break;
        }
        if (b.getNumChannels() > _fifo.size() || (!_fifo.empty() && _fifo[0].size() < b.getNumSamples())) {
            misuse += 1;
            return;
        }
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < b.getNumSamples(); ++i) {
                b.setSample(int(c), int(i), b.getSample(int(c), int(i)) * wet + _fifo[c][i] * dry);
            }
            _fifo[c].erase(_fifo[c].begin(), _fifo[c].begin() + long(b.getNumSamples()));
        }
    }

private:
    DryWetMixingRule _rule{DryWetMixingRule::linear};
    T _mix{1};
    std::size_t _channels{0}, _max{0}, _delay{0};
    std::vector<std::vector<T>> _fifo, _line;
};

}  // namespace dsp

// --- graphics: images of plain pixels ---------------------------------------------------------------
struct Colour
{
    float r{0}, g{0}, b{0}, a{0};
    [[nodiscard]] constexpr auto withAlpha(float alpha) const -> Colour { return {r, g, b, alpha}; }
    [[nodiscard]] auto over(Colour const& under) const -> Colour
    {
        return {r * a + under.r * (1 - a), g * a + under.g * (1 - a), b * a + under.b * (1 - a), a + under.a * (1 - a)};
    }
    friend constexpr auto operator==(Colour const&, Colour const&) -> bool = default;
};
namespace Colours {
inline constexpr auto white            = Colour{1, 1, 1, 1};
inline constexpr auto black            = Colour{0, 0, 0, 1};
inline constexpr auto red              = Colour{1, 0, 0, 1};
inline constexpr auto green            = Colour{0, 0.5F, 0, 1};
inline constexpr auto blue             = Colour{0, 0, 1, 1};
inline constexpr auto grey             = Colour{0.5F, 0.5F, 0.5F, 1};
inline constexpr auto transparentBlack = Colour{0, 0, 0, 0};
}  // namespace Colours

template<typename T>
struct Rectangle
{
    T x{0}, y{0}, w{0}, h{0};
    Rectangle() = default;
    Rectangle(T x_, T y_, T w_, T h_) : x(x_), y(y_), w(w_), h(h_) {}
    [[nodiscard]] auto getX() const -> T { return x; }
    [[nodiscard]] auto getY() const -> T { return y; }
    [[nodiscard]] auto getWidth() const -> T { return w; }
    [[nodiscard]] auto getHeight() const -> T { return h; }
    [[nodiscard]] auto getRight() const -> T { return x + w; }
    [[nodiscard]] auto getBottom() const -> T { return y + h; }
    [[nodiscard]] auto withX(T v) const -> Rectangle { return {v, y, w, h}; }
    [[nodiscard]] auto withY(T v) const -> Rectangle { return {x, v, w, h}; }
    [[nodiscard]] auto withWidth(T v) const -> Rectangle { return {x, y, v, h}; }
    [[nodiscard]] auto withHeight(T v) const -> Rectangle { return {x, y, w, v}; }
    [[nodiscard]] auto withBottomY(T v) const -> Rectangle { return {x, v - h, w, h}; }
    [[nodiscard]] auto withRightX(T v) const -> Rectangle { return {v - w, y, w, h}; }
    [[nodiscard]] auto withTop(T v) const -> Rectangle { return {x, v, w, getBottom() - v}; }
    [[nodiscard]] auto withBottom(T v) const -> Rectangle { return {x, y, w, v - y}; }
};

struct Image
{
    enum PixelFormat { UnknownFormat, RGB, ARGB, SingleChannel };
    struct Pixels
    {
        int w, h;
        std::vector<Colour> p;
        std::vector<int> sets;  ///< how often each pixel was set
        int outside{0};
    };
    std::shared_ptr<Pixels> data;  // images share their pixels

    Image() = default;
    Image(PixelFormat, int w, int h, bool clear)
        : data(std::make_shared<Pixels>(Pixels{w, h, std::vector<Colour>(std::size_t(w) * std::size_t(h), clear ? Colour{} : Colour{-7, -7, -7, -7}),
                                               std::vector<int>(std::size_t(w) * std::size_t(h), 0)}))
    {}
    [[nodiscard]] auto isNull() const -> bool { return data == nullptr; }
    [[nodiscard]] auto isValid() const -> bool { return data != nullptr; }
    [[nodiscard]] auto getWidth() const -> int { return data ? data->w : 0; }
    [[nodiscard]] auto getHeight() const -> int { return data ? data->h : 0; }
    [[nodiscard]] auto getBounds() const -> Rectangle<int> { return {0, 0, getWidth(), getHeight()}; }
    void setPixelAt(int x, int y, Colour c)
    {
        if (x < 0 || y < 0 || x >= getWidth() || y >= getHeight()) {
            data->outside += 1;
            return;
        }
        data->p[std::size_t(y) * std::size_t(data->w) + std::size_t(x)] = c;
        data->sets[std::size_t(y) * std::size_t(data->w) + std::size_t(x)] += 1;
    }
    [[nodiscard]] auto getPixelAt(int x, int y) const -> Colour
    {
        return x < 0 || y < 0 || x >= getWidth() || y >= getHeight() ? Colour{} : data->p[std::size_t(y) * std::size_t(data->w) + std::size_t(x)];
    }
};

struct Graphics
{
    Image image;
    Colour colour{Colours::black};
    explicit Graphics(Image const& i) : image(i) {}
    void setColour(Colour c) { colour = c; }
    void fillAll() { fillRect(image.getBounds()); }
    void fillAll(Colour c)
    {
        auto const old = std::exchange(colour, c);
        fillAll();
        colour = old;
    }
    void fillRect(int x, int y, int w, int h) { fillRect(Rectangle<int>{x, y, w, h}); }
    template<typename T>
    void fillRect(Rectangle<T> r)
    {
        if (image.isNull()) {
            return;
        }
        auto& d = *image.data;
        for (int y = std::max(0, int(r.y)); y < std::min(d.h, int(r.getBottom())); ++y) {
            for (int x = std::max(0, int(r.x)); x < std::min(d.w, int(r.getRight())); ++x) {
                auto const at = std::size_t(y) * std::size_t(d.w) + std::size_t(x);
                d.p[at]       = colour.a == 1 ? colour : colour.over(d.p[at]);
                d.sets[at] += 1;
            }
        }
    }
};

}  // namespace juce
