// Stand-in for the parts of pybind11 that neo's Python module uses.  A module is a table of overloads that the
// harness calls by name with run-time values; arrays carry shape, byte strides and flags as NumPy's do (contiguity
// flags follow NumPy's relaxed strides).  Any construction, copy, destruction or inspection of an array while the
// interpreter lock is released is recorded as an offence.
#pragma once

#include <any>
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11 {

using ssize_t = std::ptrdiff_t;

namespace stub {

inline bool gil_held       = true;
inline int offences        = 0;
inline int live_arrays     = 0;
inline void python_touched() { offences += gil_held ? 0 : 1; }

struct storage
{
    std::unique_ptr<unsigned char[]> mem;
    std::size_t bytes{0};
};

}  // namespace stub

struct gil_scoped_release
{
    bool was;
    gil_scoped_release() : was(stub::gil_held) { stub::gil_held = false; }
    ~gil_scoped_release() { stub::gil_held = was; }
    gil_scoped_release(gil_scoped_release const&) = delete;
};
struct gil_scoped_acquire
{
    bool was;
    gil_scoped_acquire() : was(stub::gil_held) { stub::gil_held = true; }
    ~gil_scoped_acquire() { stub::gil_held = was; }
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
};

struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
/// no overload accepts the arguments
struct no_overload : std::runtime_error { using std::runtime_error::runtime_error; };

struct array
{
    enum { c_style = 0x0001, f_style = 0x0002, forcecast = 0x0010 };

    std::shared_ptr<stub::storage> _store;
    unsigned char* _data{nullptr};
    std::vector<ssize_t> _shape, _strides;
    ssize_t _itemsize{1};
    bool _writeable{true};
    std::type_index _type{typeid(void)};

    array() { stub::python_touched(); }
    array(array const& o) : _store(o._store), _data(o._data), _shape(o._shape), _strides(o._strides), _itemsize(o._itemsize), _writeable(o._writeable), _type(o._type) { stub::python_touched(); }
    array(array&& o) noexcept : _store(std::move(o._store)), _data(o._data), _shape(std::move(o._shape)), _strides(std::move(o._strides)), _itemsize(o._itemsize), _writeable(o._writeable), _type(o._type) {}
    auto operator=(array const& o) -> array& = default;
    auto operator=(array&& o) noexcept -> array& = default;
    ~array()
    {
        if (_store != nullptr) {
            stub::python_touched();
        }
    }

    [[nodiscard]] auto ndim() const -> ssize_t { return static_cast<ssize_t>(_shape.size()); }
    [[nodiscard]] auto itemsize() const -> ssize_t { return _itemsize; }
    [[nodiscard]] auto size() const -> ssize_t
    {
        ssize_t n = 1;
        for (auto s : _shape) {
            n *= s;
        }
        return n;
    }
    [[nodiscard]] auto nbytes() const -> ssize_t { return size() * _itemsize; }
    [[nodiscard]] auto writeable() const -> bool { return _writeable; }
    [[nodiscard]] auto shape() const -> ssize_t const* { return _shape.data(); }
    [[nodiscard]] auto strides() const -> ssize_t const* { return _strides.data(); }
    [[nodiscard]] auto shape(ssize_t i) const -> ssize_t
    {
        if (i >= ndim()) {
            throw index_error{"invalid axis"};
        }
        return _shape[static_cast<std::size_t>(i)];
    }
    [[nodiscard]] auto strides(ssize_t i) const -> ssize_t
    {
        if (i >= ndim()) {
            throw index_error{"invalid axis"};
        }
        return _strides[static_cast<std::size_t>(i)];
    }
    [[nodiscard]] auto flags() const -> int
    {
        auto const contiguous = [&](bool c) {
            ssize_t want = _itemsize;
            for (ssize_t k = 0; k < ndim(); ++k) {
                auto const i = static_cast<std::size_t>(c ? ndim() - 1 - k : k);
                if (_shape[i] == 0) {
                    return true;
                }
                if (_shape[i] != 1 && _strides[i] != want) {
                    return false;
                }
                want *= _shape[i];
            }
            return true;
        };
        if (size() == 0) {
            return c_style | f_style;
        }
        return (contiguous(true) ? c_style : 0) | (contiguous(false) ? f_style : 0);
    }
};

template<typename T, int Flags = array::forcecast>
struct array_t : array
{
    using value_type = T;

    array_t() : array_t(std::vector<ssize_t>{0}) {}
    array_t(array_t const&)                    = default;
    array_t(array_t&&) noexcept                = default;
    auto operator=(array_t const&) -> array_t& = default;
    auto operator=(array_t&&) noexcept -> array_t& = default;

    template<typename I>
        requires std::is_integral_v<I>
    explicit array_t(I n, T const* p = nullptr) : array_t(std::vector<ssize_t>{static_cast<ssize_t>(n)}, p)
    {}
    array_t(std::initializer_list<ssize_t> s, T const* p = nullptr) : array_t(std::vector<ssize_t>(s), p) {}
    explicit array_t(std::vector<ssize_t> s, T const* p = nullptr)
    {
        stub::python_touched();
        _itemsize = sizeof(T);
        _type     = typeid(T);
        for (auto n : s) {
            if (n < 0) {
                throw value_error{"negative dimensions are not allowed"};
            }
            if (n > (ssize_t(1) << 34)) {
                throw std::bad_alloc{};
            }
        }
        _shape = s;
        _strides.assign(s.size(), sizeof(T));
        for (std::size_t i = s.size(); i-- > 1;) {
            _strides[i - 1] = _strides[i] * (s[i] == 0 ? 1 : s[i]);
        }
        _store        = std::make_shared<stub::storage>();
        _store->bytes = static_cast<std::size_t>(size()) * sizeof(T);
        _store->mem   = std::unique_ptr<unsigned char[]>(new unsigned char[_store->bytes]);
        _data         = _store->mem.get();
        std::memset(_data, 0x6b, _store->bytes);
        if (p != nullptr) {
            std::memcpy(_data, p, _store->bytes);
        }
    }
    /// conversion: shares the memory when the layout requirement is met already
    template<int G>
    array_t(array_t<T, G> const& o) : array()
    {
        if (((Flags & c_style) != 0 && (o.flags() & c_style) == 0) || ((Flags & f_style) != 0 && (Flags & c_style) == 0 && (o.flags() & f_style) == 0)) {
            auto fresh = array_t(std::vector<ssize_t>(o._shape));
            ssize_t k  = 0;
            o.for_each([&](T const& v) { std::memcpy(fresh._data + (k++) * ssize_t(sizeof(T)), &v, sizeof(T)); });
            *this = std::move(fresh);
        } else {
            static_cast<array&>(*this) = static_cast<array const&>(o);
        }
    }
    [[nodiscard]] static auto ensure(array const& h) -> array_t
    {
        if (h._type != std::type_index{typeid(T)}) {
            throw type_error{"ensure: other dtype"};
        }
        array_t<T, forcecast> same;
        static_cast<array&>(same) = h;
        return array_t(same);
    }

    template<typename Fn>
    void for_each(Fn fn) const
    {
        std::vector<ssize_t> idx(_shape.size(), 0);
        for (ssize_t n = size(); n > 0; --n) {
            auto const* p = _data;
            for (std::size_t i = 0; i < idx.size(); ++i) {
                p += idx[i] * _strides[i];
            }
            T v;
            std::memcpy(&v, p, sizeof(T));
            fn(v);
            for (std::size_t i = idx.size(); i-- > 0;) {
                if (++idx[i] < _shape[i]) {
                    break;
                }
                idx[i] = 0;
            }
        }
    }

    template<typename... I>
    [[nodiscard]] auto data(I... i) const -> T const*
    {
        return reinterpret_cast<T const*>(_data + offset(i...));
    }
    template<typename... I>
    [[nodiscard]] auto mutable_data(I... i) -> T*
    {
        if (!_writeable) {
            throw std::domain_error{"array is not writeable"};
        }
        return reinterpret_cast<T*>(_data + offset(i...));
    }
    template<typename... I>
    [[nodiscard]] auto at(I... i) const -> T const&
    {
        return *data(i...);
    }
    template<typename... I>
    [[nodiscard]] auto mutable_at(I... i) -> T&
    {
        return *mutable_data(i...);
    }

private:
    template<typename... I>
    [[nodiscard]] auto offset(I... i) const -> ssize_t
    {
        ssize_t o     = 0;
        std::size_t k = 0;
        ((o += static_cast<ssize_t>(i) * strides(static_cast<ssize_t>(k++))), ...);
        return o;
    }
};

// --- calls with run-time values -----------------------------------------------------------------------
using value = std::any;  ///< array, double (a Python float), long (int), std::monostate (None), or an enum value

template<typename T>
struct caster  // enums and anything passed through unchanged
{
    static auto accepts(value const& v, bool) -> bool { return v.type() == typeid(T); }
    static auto load(value const& v) -> T { return std::any_cast<T>(v); }
};
template<typename T>
    requires std::is_floating_point_v<T>
struct caster<T>
{
    static auto accepts(value const& v, bool convert) -> bool { return v.type() == typeid(double) || (convert && v.type() == typeid(long)); }
    static auto load(value const& v) -> T { return v.type() == typeid(long) ? static_cast<T>(std::any_cast<long>(v)) : static_cast<T>(std::any_cast<double>(v)); }
};
template<typename T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
struct caster<T>
{
    static auto accepts(value const& v, bool) -> bool { return v.type() == typeid(long) && (std::is_signed_v<T> || std::any_cast<long>(v) >= 0); }
    static auto load(value const& v) -> T { return static_cast<T>(std::any_cast<long>(v)); }
};
template<typename T>
struct caster<std::optional<T>>
{
    static auto accepts(value const& v, bool c) -> bool { return v.type() == typeid(std::monostate) || caster<T>::accepts(v, c); }
    static auto load(value const& v) -> std::optional<T>
    {
        return v.type() == typeid(std::monostate) ? std::optional<T>{} : std::optional<T>{caster<T>::load(v)};
    }
};
template<typename T, int Flags>
struct caster<array_t<T, Flags>>
{
    static auto accepts(value const& v, bool convert) -> bool
    {
        auto const* a = std::any_cast<array>(&v);
        if (a == nullptr) {
            // numbers become arrays of no dimension when conversions are allowed
            return convert && (v.type() == typeid(double) || v.type() == typeid(long));
        }
        if (convert) {
            return true;  // forcecast
        }
        auto const layout = Flags & (array::c_style | array::f_style);
        return a->_type == std::type_index{typeid(T)} && (a->flags() & layout) == layout;
    }
    template<typename S>
    static auto convert(array const& a) -> array_t<T, Flags>
    {
        array_t<S> same;
        static_cast<array&>(same) = a;
        auto out  = array_t<T, Flags>(std::vector<ssize_t>(a._shape));
        ssize_t k = 0;
        same.for_each([&](S const& s) {
            T t;
            if constexpr (std::is_arithmetic_v<S>) {
                if constexpr (std::is_floating_point_v<T>) {
                    t = static_cast<T>(s);
                } else {
                    t = T{static_cast<typename T::value_type>(s)};
                }
            } else if constexpr (std::is_floating_point_v<T>) {
                t = static_cast<T>(s.real());
            } else {
                t = T{static_cast<typename T::value_type>(s.real()), static_cast<typename T::value_type>(s.imag())};
            }
            std::memcpy(out._data + (k++) * ssize_t(sizeof(T)), &t, sizeof(T));
        });
        return out;
    }
    static auto load(value const& v) -> array_t<T, Flags>
    {
        if (v.type() == typeid(double) || v.type() == typeid(long)) {
            auto const x = v.type() == typeid(long) ? static_cast<double>(std::any_cast<long>(v)) : std::any_cast<double>(v);
            return load(value{static_cast<array const&>(array_t<double>(std::vector<ssize_t>{}, &x))});
        }
        auto const& a = *std::any_cast<array>(&v);
        if (a._type == std::type_index{typeid(T)}) {
            return array_t<T, Flags>::ensure(a);
        }
        if (a._type == std::type_index{typeid(float)}) {
            return convert<float>(a);
        }
        if (a._type == std::type_index{typeid(double)}) {
            return convert<double>(a);
        }
        if (a._type == std::type_index{typeid(std::int64_t)}) {
            return convert<std::int64_t>(a);
        }
        if (a._type == std::type_index{typeid(std::int32_t)}) {
            return convert<std::int32_t>(a);
        }
        if (a._type == std::type_index{typeid(std::complex<float>)}) {
            return convert<std::complex<float>>(a);
        }
        return convert<std::complex<double>>(a);
    }
};

template<typename T>
auto to_value(T v) -> value
{
    if constexpr (std::is_base_of_v<array, T>) {
        return value{static_cast<array const&>(v)};
    } else if constexpr (std::is_floating_point_v<T>) {
        return value{static_cast<double>(v)};
    } else {
        return value{v};
    }
}

template<typename R, typename... A>
struct vectorized
{
    std::function<R(A...)> fn;
};
template<typename R, typename... A>
auto vectorize(R (*f)(A...)) -> vectorized<R, A...>
{
    return {f};
}

struct attribute
{
    template<typename T>
    auto operator=(T const&) -> attribute&
    {
        return *this;
    }
};

struct module_
{
    struct overload
    {
        std::function<bool(std::vector<value> const&, bool)> accepts;
        std::function<value(std::vector<value> const&)> call;
    };
    std::map<std::string, std::vector<overload>> functions;
    std::map<std::string, std::map<std::string, value>> enums;

    template<typename R, typename... A, typename... Extra>
    auto def(char const* name, R (*f)(A...), Extra&&...) -> module_&
    {
        return add(name, std::function<R(A...)>{f});
    }
    template<typename R, typename A, typename... Extra>
    auto def(char const* name, vectorized<R, A> v, Extra&&...) -> module_&
    {
        using T = std::decay_t<A>;
        return add(name, std::function<array_t<R>(array_t<T, array::forcecast>)>{[v](array_t<T, array::forcecast> in) {
                       auto out  = array_t<R>(std::vector<ssize_t>(in._shape));
                       ssize_t k = 0;
                       in.for_each([&](T const& x) {
                           auto const y = v.fn(x);
                           std::memcpy(out._data + (k++) * ssize_t(sizeof(R)), &y, sizeof(R));
                       });
                       return out;
                   }});
    }
    template<typename Fn, typename... Extra>
        requires requires { &Fn::operator(); }
    auto def(char const* name, Fn f, Extra&&...) -> module_&
    {
        return add(name, std::function{f});
    }

    auto call(std::string const& name, std::vector<value> const& args) -> value
    {
        auto const it = functions.find(name);
        if (it == functions.end()) {
            throw no_overload{"module has no attribute " + name};
        }
        for (auto convert : {false, true}) {
            for (auto const& o : it->second) {
                if (o.accepts(args, convert)) {
                    return o.call(args);
                }
            }
        }
        throw no_overload{name + "(): incompatible function arguments"};
    }

    auto attr(char const*) -> attribute { return {}; }
    auto doc() -> attribute { return {}; }

private:
    template<typename R, typename... A>
    auto add(char const* name, std::function<R(A...)> f) -> module_&
    {
        functions[name].push_back({[](std::vector<value> const& v, bool c) { return v.size() == sizeof...(A) && accept<std::decay_t<A>...>(v, c, std::index_sequence_for<A...>{}); },
                                   [f](std::vector<value> const& v) { return invoke<R, A...>(f, v, std::index_sequence_for<A...>{}); }});
        return *this;
    }
    template<typename... A, std::size_t... I>
    static auto accept(std::vector<value> const& v, bool c, std::index_sequence<I...>) -> bool
    {
        return (caster<A>::accepts(v[I], c) && ...);
    }
    template<typename R, typename... A, std::size_t... I>
    static auto invoke(std::function<R(A...)> const& f, std::vector<value> const& v, std::index_sequence<I...>) -> value
    {
        return to_value<R>(f(caster<std::decay_t<A>>::load(v[I])...));
    }
};
using module = module_;

template<typename T>
struct enum_
{
    module_* m;
    std::string name;
    template<typename... Extra>
    enum_(module_& mod, char const* n, Extra&&...) : m(&mod), name(n)
    {}
    template<typename... Extra>
    auto value(char const* n, T v, Extra&&...) -> enum_&
    {
        m->enums[name][n] = std::any{v};
        return *this;
    }
    auto export_values() -> enum_& { return *this; }
};

struct arg
{
    char const* name;
    template<typename T>
    auto operator=(T const&) const -> arg
    {
        return *this;
    }
};
inline namespace literals {
inline auto operator""_a(char const* n, std::size_t) -> arg { return {n}; }
}  // namespace literals

template<typename... T>
auto print(T&&...) -> void
{}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                                                \
    static void pybind11_stub_init_##name(::pybind11::module_&);                                                       \
    static auto pybind11_stub_module() -> ::pybind11::module_&                                                         \
    {                                                                                                                  \
        static auto m = [] {                                                                                           \
            ::pybind11::module_ mod;                                                                                   \
            pybind11_stub_init_##name(mod);                                                                            \
            return mod;                                                                                                \
        }();                                                                                                           \
        return m;                                                                                                      \
    }                                                                                                                  \
    static void pybind11_stub_init_##name(::pybind11::module_& variable)
