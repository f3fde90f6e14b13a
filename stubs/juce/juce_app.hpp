// Stand-in for the parts of JUCE that neo's plugin processor and editor use, following the documented behaviour
// of JUCE 7.  Nothing runs by itself: messages, timers, thread-pool jobs and file dialogs are queued and the
// harness decides when each of them happens.
#pragma once

#include "juce_stub.hpp"

#include <variant>
#include <atomic>
#include <chrono>
#include <deque>
#include <set>

#ifndef JucePlugin_Name
    #define JucePlugin_Name "Perceptual Convolution"
#endif

namespace juce {

template<typename T>
auto jmap(T v, T a, T b, T c, T d) -> T
{
    return c + (d - c) * (v - a) / (b - a);
}
template<typename A, typename B>
auto isPositiveAndBelow(A v, B limit) -> bool
{
    return !std::cmp_less(v, 0) && std::cmp_less(v, limit);
}

template<typename T>
struct Array : std::vector<T>
{
    Array() = default;
    Array(std::initializer_list<T> l) : std::vector<T>(l) {}
    template<typename... Ts>
        requires(sizeof...(Ts) > 0 && (std::is_convertible_v<Ts, T> && ...))
    explicit Array(Ts&&... v)
    {
        (this->push_back(std::forward<Ts>(v)), ...);
    }
    void add(T v) { this->push_back(std::move(v)); }
    [[nodiscard]] auto isEmpty() const -> bool { return this->empty(); }
    [[nodiscard]] auto contains(T const& v) const -> bool { return std::find(this->begin(), this->end(), v) != this->end(); }
    [[nodiscard]] auto indexOf(T const& v) const -> int
    {
        auto const at = std::find(this->begin(), this->end(), v);
        return at == this->end() ? -1 : static_cast<int>(at - this->begin());
    }
    void addIfNotAlreadyThere(T v)
    {
        if (!contains(v)) {
            add(std::move(v));
        }
    }
    template<typename C>
    void addArray(C const& c)
    {
        for (auto const& v : c) {
            add(v);
        }
    }
    void ensureStorageAllocated(int n) { this->reserve(static_cast<std::size_t>(n)); }
    [[nodiscard]] auto getUnchecked(int i) const -> T const& { return this->at(static_cast<std::size_t>(i)); }
    [[nodiscard]] auto getReference(int i) -> T& { return this->at(static_cast<std::size_t>(i)); }
    [[nodiscard]] auto getLast() const -> T { return this->empty() ? T{} : this->back(); }
    [[nodiscard]] auto getFirst() const -> T { return this->empty() ? T{} : this->front(); }
    [[nodiscard]] auto size() const -> int { return static_cast<int>(std::vector<T>::size()); }
};
struct StringArray : Array<String>
{
    StringArray() = default;
    template<typename... Ts>
        requires(sizeof...(Ts) > 0 && (std::is_convertible_v<Ts, String> && ...))
    StringArray(Ts&&... v)
    {
        (this->push_back(String(std::forward<Ts>(v))), ...);
    }
};

struct Identifier : String
{
    Identifier(String const& s) : String(s) {}
    Identifier(char const* s) : String(s) {}
};

struct MemoryBlock
{
    std::vector<char> bytes;
    [[nodiscard]] auto getData() const -> void const* { return bytes.data(); }
    [[nodiscard]] auto getSize() const -> std::size_t { return bytes.size(); }
};
/// as in JUCE, the block only has its final size once the stream has been flushed or destroyed
struct MemoryOutputStream
{
    MemoryBlock& block;
    std::vector<char> buffer;
    MemoryOutputStream(MemoryBlock& b, bool append) : block(b)
    {
        if (append) {
            buffer = b.bytes;
        }
    }
    MemoryOutputStream(MemoryOutputStream const&)                    = delete;
    auto operator=(MemoryOutputStream const&) -> MemoryOutputStream& = delete;
    ~MemoryOutputStream() { flush(); }
    void flush() { block.bytes = buffer; }
    void write(void const* p, std::size_t n) { buffer.insert(buffer.end(), static_cast<char const*>(p), static_cast<char const*>(p) + n); }
};

// --- messages ---------------------------------------------------------------------------------------
struct MessageManager
{
    static auto queue() -> std::deque<std::function<void()>>&
    {
        static std::deque<std::function<void()>> q;
        return q;
    }
    static auto callAsync(std::function<void()> f) -> bool
    {
        yieldPoint();
        queue().push_back(std::move(f));
        return true;
    }
};

template<typename L>
struct ListenerList
{
    std::vector<L*> items;
    void add(L* l)
    {
        if (l != nullptr && std::find(items.begin(), items.end(), l) == items.end()) {
            items.push_back(l);
        }
    }
    void remove(L* l) { std::erase(items, l); }
    [[nodiscard]] auto isEmpty() const -> bool { return items.empty(); }
    [[nodiscard]] auto size() const -> int { return int(items.size()); }
    /// listeners may come and go during a call
    template<typename Fn>
        requires std::is_invocable_v<Fn, L&>
    void call(Fn fn)
    {
        auto const snapshot = items;
        for (auto it = snapshot.rbegin(); it != snapshot.rend(); ++it) {
            if (std::find(items.begin(), items.end(), *it) != items.end()) {
                fn(**it);
            }
        }
    }
    template<typename... Params, typename... Args>
    void call(void (L::*fn)(Params...), Args&&... args)
    {
        call([&](L& l) { (l.*fn)(args...); });
    }
};

// --- values and trees -------------------------------------------------------------------------------
class var
{
    std::variant<std::monostate, int, double, bool, std::string, std::shared_ptr<Array<var>>> _v;  // copies share an array

public:
    var() = default;
    var(int v) : _v(v) {}
    var(double v) : _v(v) {}
    var(float v) : _v(double(v)) {}
    var(bool v) : _v(v) {}
    var(char const* v) : _v(std::string(v)) {}
    var(String const& v) : _v(std::string(v)) {}
    var(Array<var> const& v) : _v(std::make_shared<Array<var>>(v)) {}
    [[nodiscard]] auto isVoid() const -> bool { return _v.index() == 0; }
    [[nodiscard]] auto isInt() const -> bool { return _v.index() == 1; }
    [[nodiscard]] auto isDouble() const -> bool { return _v.index() == 2; }
    [[nodiscard]] auto isBool() const -> bool { return _v.index() == 3; }
    [[nodiscard]] auto isString() const -> bool { return _v.index() == 4; }
    [[nodiscard]] auto isArray() const -> bool { return _v.index() == 5; }
    [[nodiscard]] auto size() const -> int { return isArray() ? std::get<5>(_v)->size() : 0; }
    [[nodiscard]] auto operator[](int i) const -> var const& { return std::get<5>(_v)->at(static_cast<std::size_t>(i)); }
    [[nodiscard]] auto toString() const -> String
    {
        switch (_v.index()) {
        case 1: return String(std::get<1>(_v));
        case 2: return String(std::get<2>(_v));
        case 3: return std::get<3>(_v) ? "1" : "0";
        case 4: return std::get<4>(_v);
        default: return {};
        }
    }
    [[nodiscard]] auto number() const -> double
    {
        switch (_v.index()) {
        case 1: return std::get<1>(_v);
        case 2: return std::get<2>(_v);
        case 3: return std::get<3>(_v) ? 1 : 0;
        case 4: return std::strtod(std::get<4>(_v).c_str(), nullptr);
        default: return 0;
        }
    }
    [[nodiscard]] operator int() const { return static_cast<int>(number()); }
    [[nodiscard]] operator float() const { return static_cast<float>(number()); }
    [[nodiscard]] operator double() const { return number(); }
    [[nodiscard]] operator bool() const { return number() != 0; }
    [[nodiscard]] auto getArray() const -> Array<var>* { return _v.index() == 5 ? std::get<5>(_v).get() : nullptr; }
    friend auto operator==(var const& a, var const& b) -> bool
    {
        if (a._v.index() == 4 || b._v.index() == 4) {
            return a.toString() == b.toString();
        }
        if (a._v.index() == 5 || b._v.index() == 5) {
            return a._v.index() == b._v.index() && static_cast<std::vector<var> const&>(*std::get<5>(a._v)) == static_cast<std::vector<var> const&>(*std::get<5>(b._v));
        }
        return a.isVoid() == b.isVoid() && a.number() == b.number();
    }
    friend auto operator==(var const& a, char const* b) -> bool { return a == var(b); }
};

/// a value that several owners may refer to; its listeners hear of a change in a later message
class Value
{
public:
    struct Listener
    {
        virtual ~Listener()               = default;
        virtual void valueChanged(Value&) = 0;
    };

private:
    struct Source
    {
        var value;
        std::set<Value*> owners;
    };
    std::shared_ptr<Source> _source{std::make_shared<Source>()};
    ListenerList<Listener> _listeners;

public:
    Value() { _source->owners.insert(this); }
    explicit Value(var v)
    {
        _source->value = std::move(v);
        _source->owners.insert(this);
    }
    Value(Value const& o) : _source(o._source) { _source->owners.insert(this); }
    auto operator=(Value const&) -> Value& = delete;
    auto operator=(var const& v) -> Value&
    {
        setValue(v);
        return *this;
    }
    ~Value() { _source->owners.erase(this); }
    [[nodiscard]] auto getValue() const -> var { return _source->value; }
    [[nodiscard]] auto toString() const -> String { return _source->value.toString(); }
    void setValue(var const& v)
    {
        if (_source->value == v) {
            return;
        }
        _source->value = v;
        MessageManager::callAsync([s = std::weak_ptr<Source>(_source)] {
            if (auto const src = s.lock(); src != nullptr) {
                auto const owners = src->owners;
                for (auto* o : owners) {
                    if (src->owners.contains(o)) {
                        auto copy = Value(*o);
                        o->_listeners.call([&](Listener& l) { l.valueChanged(copy); });
                    }
                }
            }
        });
    }
    [[nodiscard]] auto refersToSameSourceAs(Value const& o) const -> bool { return _source == o._source; }
    void addListener(Listener* l) { _listeners.add(l); }
    void removeListener(Listener* l) { _listeners.remove(l); }
};

struct UndoManager
{
    void clearUndoHistory() {}
};

class ValueTree
{
public:
    struct Listener
    {
        virtual ~Listener()                          = default;
        virtual void valueTreeRedirected(ValueTree&) = 0;
        virtual void valueTreePropertyChanged(ValueTree&, Identifier const&) {}
    };

private:
    struct Object
    {
        std::string type;
        std::map<std::string, var> properties;
        std::vector<std::shared_ptr<Object>> children;
        Object* parent{nullptr};
        std::set<ValueTree*> referers;
    };
    std::shared_ptr<Object> _object;
    ListenerList<Listener> _listeners;

    explicit ValueTree(std::shared_ptr<Object> o) : _object(std::move(o)) {}
    void link()
    {
        if (_object != nullptr) {
            _object->referers.insert(this);
        }
    }
    void unlink()
    {
        if (_object != nullptr) {
            _object->referers.erase(this);
        }
    }
public:
    ValueTree() = default;
    explicit ValueTree(Identifier const& type) : _object(std::make_shared<Object>()) { _object->type = type; }
    ValueTree(ValueTree const& o) : _object(o._object) {}
    ~ValueTree() { unlink(); }
    auto operator=(ValueTree const& o) -> ValueTree&
    {
        if (_object != o._object) {
            unlink();
            _object = o._object;
            if (!_listeners.isEmpty()) {
                link();
                _listeners.call([&](Listener& l) { l.valueTreeRedirected(*this); });
            }
        }
        return *this;
    }
    [[nodiscard]] auto isValid() const -> bool { return _object != nullptr; }
    [[nodiscard]] auto getType() const -> Identifier { return Identifier(String(_object ? _object->type : std::string())); }
    [[nodiscard]] auto hasType(Identifier const& t) const -> bool { return _object != nullptr && _object->type == t; }
    [[nodiscard]] auto hasProperty(Identifier const& k) const -> bool { return _object != nullptr && _object->properties.contains(k); }
    [[nodiscard]] auto getProperty(Identifier const& k, var const& fallback = {}) const -> var
    {
        return hasProperty(k) ? _object->properties.at(k) : fallback;
    }
    auto setProperty(Identifier const& k, var const& v, UndoManager*) -> ValueTree&
    {
        if (_object != nullptr && !(_object->properties.contains(k) && _object->properties[k] == v)) {
            _object->properties[k] = v;
            notify(_object.get(), k);
        }
        return *this;
    }
    [[nodiscard]] auto getNumChildren() const -> int { return _object ? int(_object->children.size()) : 0; }
    [[nodiscard]] auto getChild(int i) const -> ValueTree { return ValueTree(_object->children[std::size_t(i)]); }
    [[nodiscard]] auto getChildWithProperty(Identifier const& k, var const& v) const -> ValueTree
    {
        for (int i = 0; i < getNumChildren(); ++i) {
            if (getChild(i).getProperty(k) == v) {
                return getChild(i);
            }
        }
        return {};
    }
    void appendChild(ValueTree const& c, UndoManager*)
    {
        if (_object != nullptr && c._object != nullptr) {
            _object->children.push_back(c._object);
            c._object->parent = _object.get();
        }
    }
    void addListener(Listener* l)
    {
        link();
        _listeners.add(l);
    }
    void removeListener(Listener* l) { _listeners.remove(l); }
    [[nodiscard]] auto createCopy() const -> ValueTree
    {
        auto r = _object == nullptr ? ValueTree() : ValueTree(Identifier(String(_object->type)));
        if (_object != nullptr) {
            r._object->properties = _object->properties;
            for (int i = 0; i < getNumChildren(); ++i) {
                r.appendChild(getChild(i).createCopy(), nullptr);
            }
        }
        return r;
    }
    [[nodiscard]] auto isEquivalentTo(ValueTree const& o) const -> bool { return text() == o.text(); }
    auto operator==(ValueTree const& o) const -> bool { return _object == o._object; }

    // a plain text form: type, properties, children; anything else is no tree
    [[nodiscard]] auto text() const -> std::string
    {
        if (_object == nullptr) {
            return "\n";
        }
        auto s = "T" + _object->type + "\n";
        for (auto const& [k, v] : _object->properties) {
            char b[64];
            std::snprintf(b, sizeof b, "%a", v.number());
            auto const str = v.toString();
            auto const isText = !str.empty() && str.find_first_not_of("0123456789.-+einfa") != std::string::npos;
            s += isText ? "S" + k + "=" + str + "\n" : "N" + k + "=" + b + "\n";
        }
        for (int i = 0; i < getNumChildren(); ++i) {
            s += getChild(i).text();
        }
        return s + "E\n";
    }
    void writeToStream(MemoryOutputStream& out) const
    {
        auto const s = text();
        out.write(s.data(), s.size());
    }
    [[nodiscard]] static auto readFromData(void const* data, std::size_t n) -> ValueTree
    {
        if (data == nullptr) {
            return {};
        }
        auto const s = std::string(static_cast<char const*>(data), n);
        std::size_t at = 0;
        auto const t = parse(s, at);
        return at <= s.size() ? t : ValueTree();  // as JUCE does, what follows the first tree is not looked at
    }

private:
    static auto parse(std::string const& s, std::size_t& at) -> ValueTree
    {
        auto const line = [&]() -> std::string {
            auto const e = s.find('\n', at);
            auto const r = e == std::string::npos ? std::string() : s.substr(at, e - at);
            at           = e == std::string::npos ? s.size() + 1 : e + 1;
            return r;
        };
        auto const head = line();
        if (head.size() < 2 || head[0] != 'T') {
            at = s.size() + 1;
            return {};
        }
        auto t = ValueTree(Identifier(String(head.substr(1))));
        while (at < s.size()) {
            if (s[at] == 'T') {
                t.appendChild(parse(s, at), nullptr);
                continue;
            }
            auto const l = line();
            if (l == "E") {
                return t;
            }
            auto const eq = l.find('=');
            if (l.empty() || (l[0] != 'S' && l[0] != 'N') || eq == std::string::npos) {
                break;
            }
            auto const k                = l.substr(1, eq - 1);
            t._object->properties[k] = l[0] == 'S' ? var(String(l.substr(eq + 1))) : var(std::strtod(l.c_str() + eq + 1, nullptr));
        }
        at = s.size() + 1;
        return {};
    }
    static void notify(Object* at, std::string const& key)
    {
        for (auto* o = at; o != nullptr; o = o->parent) {
            auto const all = o->referers;
            for (auto* t : all) {
                t->_listeners.call([&](Listener& l) {
                    auto tree = ValueTree();
                    for (auto const& c : t->_object->children) {
                        if (c.get() == at) {
                            tree._object = c;
                        }
                    }
                    l.valueTreePropertyChanged(tree, Identifier(String(key)));
                });
            }
        }
    }
};

// --- processors -------------------------------------------------------------------------------------
struct MidiBuffer
{};
struct ScopedNoDenormals
{};

struct AudioChannelSet
{
    int kind{0};
    static auto disabled() -> AudioChannelSet { return {0}; }
    static auto mono() -> AudioChannelSet { return {1}; }
    static auto stereo() -> AudioChannelSet { return {2}; }
    static auto createLCR() -> AudioChannelSet { return {3}; }
    static auto quadraphonic() -> AudioChannelSet { return {4}; }
    static auto discreteChannels(int n) -> AudioChannelSet { return {100 + n}; }
    [[nodiscard]] auto size() const -> int { return kind >= 100 ? kind - 100 : kind; }
    [[nodiscard]] auto isDisabled() const -> bool { return size() == 0; }
    auto operator==(AudioChannelSet const&) const -> bool = default;
};

struct ParameterID
{
    String id;
    int version;
    ParameterID(String s, int v = 0) : id(std::move(s)), version(v) {}
    [[nodiscard]] auto getParamID() const -> String { return id; }
};

template<typename T>
struct NormalisableRange
{
    T start{0}, end{1}, interval{0}, skew{1};
    NormalisableRange() = default;
    NormalisableRange(T a, T b, T i = T(0), T s = T(1)) : start(a), end(b), interval(i), skew(s) {}
    void setSkewForCentre(T centre) { skew = std::log(T(0.5)) / std::log((centre - start) / (end - start)); }
    [[nodiscard]] auto convertTo0to1(T v) const -> T { return std::pow(std::clamp((v - start) / (end - start), T(0), T(1)), skew); }
    [[nodiscard]] auto convertFrom0to1(T p) const -> T
    {
        p = std::clamp(p, T(0), T(1));
        return start + (end - start) * (p > 0 ? std::exp(std::log(p) / skew) : T(0));
    }
    [[nodiscard]] auto snapToLegalValue(T v) const -> T { return std::clamp(v, start, end); }
};

struct RangedAudioParameter
{
    String paramID, name;
    int version;
    RangedAudioParameter(ParameterID p, String n) : paramID(p.id), name(std::move(n)), version(p.version) {}
    virtual ~RangedAudioParameter() = default;
    std::function<void()> changed;
    [[nodiscard]] virtual auto getValue() const -> float              = 0;  // 0..1
    virtual void setValue(float v)                                    = 0;
    [[nodiscard]] virtual auto getDefaultValue() const -> float       = 0;
    [[nodiscard]] virtual auto convertTo0to1(float v) const -> float  = 0;
    [[nodiscard]] virtual auto convertFrom0to1(float v) const -> float = 0;
    void setValueNotifyingHost(float v)
    {
        setValue(v);
        if (changed) {
            changed();
        }
    }
};
struct AudioParameterFloat : RangedAudioParameter
{
    NormalisableRange<float> range;
    AudioParameterFloat(ParameterID p, String n, NormalisableRange<float> r, float d)
        : RangedAudioParameter(std::move(p), std::move(n)), range(r), _value(d), _default(d)
    {}
    AudioParameterFloat(ParameterID p, String n, float lo, float hi, float d)
        : AudioParameterFloat(std::move(p), std::move(n), NormalisableRange<float>{lo, hi}, d)
    {}
    [[nodiscard]] auto get() const -> float { return _value.load(); }
    operator float() const { return _value.load(); }
    [[nodiscard]] auto getValue() const -> float override { return convertTo0to1(_value); }
    void setValue(float v) override { _value = convertFrom0to1(v); }
    [[nodiscard]] auto getDefaultValue() const -> float override { return convertTo0to1(_default); }
    [[nodiscard]] auto convertTo0to1(float v) const -> float override { return range.convertTo0to1(v); }
    [[nodiscard]] auto convertFrom0to1(float v) const -> float override { return range.convertFrom0to1(v); }
    auto operator=(float v) -> AudioParameterFloat&
    {
        if (v != _value) {
            setValueNotifyingHost(convertTo0to1(v));
        }
        return *this;
    }

private:
    std::atomic<float> _value;
    float _default;
};
struct AudioParameterInt : RangedAudioParameter
{
    using RangedAudioParameter::RangedAudioParameter;
};
struct AudioParameterBool : RangedAudioParameter
{
    using RangedAudioParameter::RangedAudioParameter;
};
struct AudioParameterChoice : RangedAudioParameter
{
    using RangedAudioParameter::RangedAudioParameter;
};

struct AudioProcessorEditor;
struct AudioProcessor
{
    struct BusesProperties
    {
        std::vector<AudioChannelSet> in, out;
        auto withInput(String const&, AudioChannelSet const& s, bool = true) const -> BusesProperties
        {
            auto r = *this;
            r.in.push_back(s);
            return r;
        }
        auto withOutput(String const&, AudioChannelSet const& s, bool = true) const -> BusesProperties
        {
            auto r = *this;
            r.out.push_back(s);
            return r;
        }
    };
    struct BusesLayout
    {
        std::vector<AudioChannelSet> inputBuses, outputBuses;
        [[nodiscard]] auto getMainInputChannelSet() const -> AudioChannelSet { return inputBuses.empty() ? AudioChannelSet{} : inputBuses[0]; }
        [[nodiscard]] auto getMainOutputChannelSet() const -> AudioChannelSet { return outputBuses.empty() ? AudioChannelSet{} : outputBuses[0]; }
        [[nodiscard]] auto getMainInputChannels() const -> int { return getMainInputChannelSet().size(); }
        [[nodiscard]] auto getMainOutputChannels() const -> int { return getMainOutputChannelSet().size(); }
    };

    AudioProcessor() = default;
    explicit AudioProcessor(BusesProperties const& p) : _layout{p.in, p.out} {}
    virtual ~AudioProcessor() = default;

    virtual auto getName() const -> String const                                  = 0;
    virtual void prepareToPlay(double, int)                                       = 0;
    virtual void releaseResources()                                               = 0;
    virtual void processBlock(AudioBuffer<float>&, MidiBuffer&)                   = 0;
    virtual void processBlock(AudioBuffer<double>&, MidiBuffer&) {}
    virtual auto isBusesLayoutSupported(BusesLayout const&) const -> bool { return true; }
    virtual auto createEditor() -> AudioProcessorEditor*                          = 0;
    virtual auto hasEditor() const -> bool                                        = 0;
    virtual auto acceptsMidi() const -> bool                                      = 0;
    virtual auto producesMidi() const -> bool                                     = 0;
    virtual auto isMidiEffect() const -> bool { return false; }
    virtual auto getTailLengthSeconds() const -> double                           = 0;
    virtual auto getNumPrograms() -> int                                          = 0;
    virtual auto getCurrentProgram() -> int                                       = 0;
    virtual void setCurrentProgram(int)                                           = 0;
    virtual auto getProgramName(int) -> String const                              = 0;
    virtual void changeProgramName(int, String const&)                            = 0;
    virtual void getStateInformation(MemoryBlock&)                                = 0;
    virtual void setStateInformation(void const*, int)                            = 0;

    auto setBusesLayout(BusesLayout const& l) -> bool
    {
        if (!isBusesLayoutSupported(l)) {
            return false;
        }
        _layout = l;
        return true;
    }
    auto checkBusesLayoutSupported(BusesLayout const& l) const -> bool { return isBusesLayoutSupported(l); }
    static auto total(std::vector<AudioChannelSet> const& v) -> int
    {
        auto n = 0;
        for (auto const& s : v) {
            n += s.size();
        }
        return n;
    }
    [[nodiscard]] auto getTotalNumInputChannels() const -> int { return total(_layout.inputBuses); }
    [[nodiscard]] auto getTotalNumOutputChannels() const -> int { return total(_layout.outputBuses); }
    [[nodiscard]] auto getMainBusNumInputChannels() const -> int { return _layout.getMainInputChannels(); }
    [[nodiscard]] auto getMainBusNumOutputChannels() const -> int { return _layout.getMainOutputChannels(); }
    void setLatencySamples(int n) { latency = n; }
    [[nodiscard]] auto getLatencySamples() const -> int { return latency; }
    [[nodiscard]] auto getSampleRate() const -> double { return rate; }
    [[nodiscard]] auto getBlockSize() const -> int { return block; }
    void setRateAndBufferSizeDetails(double r, int b) { rate = r, block = b; }

    std::vector<std::unique_ptr<RangedAudioParameter>> parameters;
    int latency{0};
    double rate{0};
    int block{0};

private:
    BusesLayout _layout;
};

/// parameter values reach the tree when the timer fires or when copyState() or a new state asks for it
class AudioProcessorValueTreeState : ValueTree::Listener
{
    struct Adapter
    {
        RangedAudioParameter* parameter;
        ValueTree tree;
        std::atomic<float> raw;
        bool needsUpdate{true};
        explicit Adapter(RangedAudioParameter* p) : parameter(p), raw(p->convertFrom0to1(p->getValue())) {}
    };
    std::map<std::string, std::unique_ptr<Adapter>> _adapters;
    bool _flushing{false};

public:
    struct ParameterLayout
    {
        std::vector<std::unique_ptr<RangedAudioParameter>> items;
        template<typename... Ps>
        ParameterLayout(std::unique_ptr<Ps>... ps)
        {
            (items.push_back(std::move(ps)), ...);
        }
    };

    AudioProcessor& processor;
    ValueTree state;

    AudioProcessorValueTreeState(AudioProcessor& p, UndoManager*, Identifier const& type, ParameterLayout layout) : processor(p)
    {
        state.addListener(this);
        for (auto& q : layout.items) {
            auto a       = std::make_unique<Adapter>(q.get());
            q->changed   = [ptr = a.get()] {
                ptr->raw         = ptr->parameter->convertFrom0to1(ptr->parameter->getValue());
                ptr->needsUpdate = true;
            };
            _adapters[q->paramID] = std::move(a);
            processor.parameters.push_back(std::move(q));
        }
        state = ValueTree(type);
    }
    AudioProcessorValueTreeState(AudioProcessorValueTreeState const&)                    = delete;
    auto operator=(AudioProcessorValueTreeState const&) -> AudioProcessorValueTreeState& = delete;
    ~AudioProcessorValueTreeState() override { state.removeListener(this); }

    [[nodiscard]] auto getParameter(StringRef id) const -> RangedAudioParameter*
    {
        auto const it = _adapters.find(id);
        return it == _adapters.end() ? nullptr : it->second->parameter;
    }
    [[nodiscard]] auto getRawParameterValue(StringRef id) const -> std::atomic<float>*
    {
        auto const it = _adapters.find(id);
        return it == _adapters.end() ? nullptr : &it->second->raw;
    }
    void timerCallback() { flush(); }
    auto copyState() -> ValueTree
    {
        flush();
        return state.createCopy();
    }
    void replaceState(ValueTree const& t) { state = t; }

private:
    void valueTreeRedirected(ValueTree&) override
    {
        for (auto& [id, a] : _adapters) {
            a->tree = ValueTree();
        }
        for (int i = 0; i < state.getNumChildren(); ++i) {
            fromTree(state.getChild(i));
        }
        for (auto& [id, a] : _adapters) {
            if (!a->tree.isValid()) {
                a->tree = ValueTree("PARAM");
                a->tree.setProperty("id", a->parameter->paramID, nullptr);
                state.appendChild(a->tree, nullptr);
            }
        }
        flush();
    }
    void valueTreePropertyChanged(ValueTree& t, Identifier const& key) override
    {
        if (!_flushing && key == "value" && t.isValid()) {
            fromTree(t);
        }
    }
    void fromTree(ValueTree const& t)
    {
        auto const it = _adapters.find(t.getProperty("id").toString());
        if (it != _adapters.end()) {
            auto& a = *it->second;
            a.tree  = t;
            auto const v = static_cast<float>(t.getProperty("value", a.parameter->convertFrom0to1(a.parameter->getDefaultValue())));
            if (v != a.parameter->convertFrom0to1(a.parameter->getValue())) {
                a.parameter->setValueNotifyingHost(a.parameter->convertTo0to1(v));
            }
        }
    }
    void flush()
    {
        _flushing = true;
        for (auto& [id, a] : _adapters) {
            if (std::exchange(a->needsUpdate, false)) {
                a->tree.setProperty("value", a->parameter->convertFrom0to1(a->parameter->getValue()), nullptr);
            }
        }
        _flushing = false;
    }
};

// --- components: enough to build, lay out and read back ----------------------------------------------
template<typename T>
struct Box : Rectangle<T>
{
    using Rectangle<T>::Rectangle;
    Box() = default;
    Box(Rectangle<T> const& r) : Rectangle<T>(r) {}
    [[nodiscard]] auto proportionOfWidth(double p) const -> T { return static_cast<T>(p * this->w); }
    [[nodiscard]] auto proportionOfHeight(double p) const -> T { return static_cast<T>(p * this->h); }
    auto removeFromTop(T n) -> Box
    {
        n      = std::min(n, this->h);
        auto r = Box{this->x, this->y, this->w, n};
        this->y += n, this->h -= n;
        return r;
    }
    auto removeFromBottom(T n) -> Box
    {
        n = std::min(n, this->h);
        this->h -= n;
        return {this->x, this->y + this->h, this->w, n};
    }
    auto removeFromLeft(T n) -> Box
    {
        n      = std::min(n, this->w);
        auto r = Box{this->x, this->y, n, this->h};
        this->x += n, this->w -= n;
        return r;
    }
    auto removeFromRight(T n) -> Box
    {
        n = std::min(n, this->w);
        this->w -= n;
        return {this->x + this->w, this->y, n, this->h};
    }
    [[nodiscard]] auto reduced(T n) const -> Box { return reduced(n, n); }
    [[nodiscard]] auto reduced(T dx, T dy) const -> Box { return {this->x + dx, this->y + dy, std::max(T(0), this->w - 2 * dx), std::max(T(0), this->h - 2 * dy)}; }
};

struct LookAndFeel
{
    [[nodiscard]] auto findColour(int) const -> Colour { return Colours::grey; }
};
struct ResizableWindow
{
    enum { backgroundColourId = 1 };
};

struct Component
{
    static auto living() -> std::vector<Component*>&
    {
        static std::vector<Component*> all;
        return all;
    }
    Component() { living().push_back(this); }
    Component(Component const&)                    = delete;
    auto operator=(Component const&) -> Component& = delete;
    virtual ~Component() { std::erase(living(), this); }

    virtual void paint(Graphics&) {}
    virtual void resized() {}
    void addAndMakeVisible(Component& c) { children.push_back(&c); }
    void addAndMakeVisible(Component* c) { children.push_back(c); }
    void setBounds(Box<int> const& b)
    {
        bounds = b;
        resized();
    }
    void setBounds(int x, int y, int w, int h) { setBounds({x, y, w, h}); }
    void setVisible(bool) {}
    void setEnabled(bool) {}
    [[nodiscard]] auto getBounds() const -> Box<int> { return bounds; }
    [[nodiscard]] auto getWidth() const -> int { return bounds.w; }
    [[nodiscard]] auto getHeight() const -> int { return bounds.h; }
    void addChildComponent(Component& c) { children.push_back(&c); }
    void setSize(int w, int h) { setBounds({bounds.x, bounds.y, w, h}); }
    [[nodiscard]] auto getLocalBounds() const -> Box<int> { return {0, 0, bounds.w, bounds.h}; }
    [[nodiscard]] auto getLookAndFeel() const -> LookAndFeel&
    {
        static LookAndFeel l;
        return l;
    }
    void setLookAndFeel(LookAndFeel*) {}
    void repaint() { ++repaints; }

    template<typename C>
    struct SafePointer
    {
        C* target{nullptr};
        std::weak_ptr<int> token;
        SafePointer() = default;
        SafePointer(std::nullptr_t) {}
        SafePointer(C* c) : target(c), token(c != nullptr ? static_cast<Component*>(c)->alive : nullptr) {}
        [[nodiscard]] auto getComponent() const -> C* { return token.expired() ? nullptr : target; }
        operator C*() const { return getComponent(); }
        auto operator->() const -> C* { return getComponent(); }
        auto operator==(std::nullptr_t) const -> bool { return getComponent() == nullptr; }
    };

    std::shared_ptr<int> alive{std::make_shared<int>(0)};
    std::vector<Component*> children;
    Box<int> bounds;
    int repaints{0};
};

struct AudioProcessorEditor : Component
{
    explicit AudioProcessorEditor(AudioProcessor* p) : processor(*p) {}
    AudioProcessor& processor;
    void setResizable(bool, bool) {}
};
struct GenericAudioProcessorEditor : AudioProcessorEditor
{
    GenericAudioProcessorEditor(AudioProcessor& p) : AudioProcessorEditor(&p) {}
};
struct Button : Component
{
    String text;
    std::function<void()> onClick;
};
struct TextButton : Button
{
    TextButton() = default;
    explicit TextButton(String const& t) { text = t; }
};
enum NotificationType { dontSendNotification, sendNotification };
struct Label : Component
{
    String text;
    Label() = default;
    explicit Label(String const&, String const& t = {}) : text(t) {}
    void setText(String const& t, NotificationType) { text = t; }
    [[nodiscard]] auto getText() const -> String { return text; }
};
struct TabbedButtonBar
{
    enum Orientation { TabsAtTop, TabsAtBottom };
};
struct TabbedComponent : Component
{
    std::vector<std::pair<String, Component*>> tabs;
    explicit TabbedComponent(TabbedButtonBar::Orientation) {}
    void addTab(String const& n, Colour, Component* c, bool) { tabs.emplace_back(n, c); }
};
struct TooltipWindow : Component
{
    void setMillisecondsBeforeTipAppears(int) {}
};
template<typename T>
struct SharedResourcePointer
{
    std::unique_ptr<T> p{std::make_unique<T>()};
    auto operator->() const -> T* { return p.get(); }
};
struct RectanglePlacement
{
    enum Flags { stretchToFit = 1, centred = 2 };
};
struct ImageComponent : Component
{
    Image image;
    void setImage(Image const& i) { image = i; }
    [[nodiscard]] auto getImage() const -> Image const& { return image; }
    void setImagePlacement(int) {}
};
struct TextEditor : Component
{
    std::string text;
    std::size_t caret{0};
    void setReadOnly(bool) {}
    void setMultiLine(bool) {}
    void setText(String const& t, bool = true) { text = t, caret = std::min(caret, text.size()); }
    [[nodiscard]] auto getText() const -> String { return text; }
    void clear() { text.clear(), caret = 0; }
    void moveCaretToEnd(bool = false) { caret = text.size(); }
    void insertTextAtCaret(String const& t)
    {
        text.insert(caret, t);
        caret += t.size();
    }
};

struct PropertyComponent : Component
{
    String name;
    Value value;
    PropertyComponent(Value const& v, String n) : name(std::move(n)), value(v) {}
};
struct SliderPropertyComponent : PropertyComponent
{
    double lo, hi, step;
    SliderPropertyComponent(Value const& v, String n, double a, double b, double s) : PropertyComponent(v, std::move(n)), lo(a), hi(b), step(s) {}
};
struct ChoicePropertyComponent : PropertyComponent
{
    StringArray names;
    Array<var> values;
    ChoicePropertyComponent(Value const& v, String n, StringArray a, Array<var> b) : PropertyComponent(v, std::move(n)), names(std::move(a)), values(std::move(b)) {}
};
struct MultiChoicePropertyComponent : ChoicePropertyComponent
{
    using ChoicePropertyComponent::ChoicePropertyComponent;
};
struct PropertyPanel : Component
{
    std::vector<std::pair<String, std::unique_ptr<PropertyComponent>>> items;
    void addSection(String const& s, Array<PropertyComponent*> const& a)
    {
        for (auto* c : a) {
            items.emplace_back(s, c);
        }
    }
};

struct FileBrowserComponent
{
    enum FileChooserFlags { openMode = 1, saveMode = 2, canSelectFiles = 4, canSelectDirectories = 8 };
};
/// the dialog that is open; destroying the chooser closes it
struct FileChooser
{
    static auto open() -> std::vector<FileChooser*>&
    {
        static std::vector<FileChooser*> all;
        return all;
    }
    std::function<void(FileChooser const&)> callback;
    Array<File> results;
    FileChooser(String const&, File const&, String const&) {}
    FileChooser(FileChooser const&)                    = delete;
    auto operator=(FileChooser const&) -> FileChooser& = delete;
    ~FileChooser() { std::erase(open(), this); }
    void launchAsync(int, std::function<void(FileChooser const&)> f)
    {
        callback = std::move(f);
        open().push_back(this);
    }
    [[nodiscard]] auto getResults() const -> Array<File> { return results; }
    [[nodiscard]] auto getResult() const -> File { return results.getFirst(); }
    /// the user closes the dialog
    void close(Array<File> chosen)
    {
        std::erase(open(), this);
        results = std::move(chosen);
        callback(*this);
    }
};

struct ThreadPoolOptions
{
    int threads{8};  // one per core
    [[nodiscard]] auto withNumberOfThreads(int n) const -> ThreadPoolOptions
    {
        auto o    = *this;
        o.threads = n;
        return o;
    }
    [[nodiscard]] auto withDesiredThreadPriority(int) const -> ThreadPoolOptions { return *this; }
    [[nodiscard]] auto withThreadName(String const&) const -> ThreadPoolOptions { return *this; }
};
struct ThreadPool
{
    static auto living() -> std::vector<ThreadPool*>&
    {
        static std::vector<ThreadPool*> all;
        return all;
    }
    std::deque<std::function<void()>> jobs;
    ThreadPool() { living().push_back(this); }
    int threads{8};
    explicit ThreadPool(ThreadPoolOptions const& o) : threads(o.threads) { living().push_back(this); }
    explicit ThreadPool(int n) : threads(n) { living().push_back(this); }
    ThreadPool(ThreadPool const&)                    = delete;
    auto operator=(ThreadPool const&) -> ThreadPool& = delete;
    ~ThreadPool() { std::erase(living(), this); }
    void addJob(std::function<void()> f) { jobs.push_back(std::move(f)); }
    auto removeAllJobs(bool, int) -> bool
    {
        jobs.clear();
        return true;
    }
    [[nodiscard]] auto getNumJobs() const -> int { return int(jobs.size()); }
};

}  // namespace juce
