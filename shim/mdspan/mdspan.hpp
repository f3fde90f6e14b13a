// Minimal, bounds-checked implementation of the part of P0009 (mdspan), P2630 (submdspan) and P1684 (mdarray)
// that kokkos/mdspan offers in namespace Kokkos.  The real dependency is fetched from the network by the repository's
// CMake files and is not present in this sandbox, so every header of the repository that includes <mdspan/...> is
// compiled against this one.  It is semantically the reference container of the checks: every element access and
// every sub-view is checked against its extents, and a violation of the mdspan preconditions aborts (memory monitor).
#pragma once

#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

#define MDSPAN_USE_PAREN_OPERATOR 1
#define MDSPAN_USE_BRACKET_OPERATOR 0

// element accesses of views are the scheduling points of the concurrency exploration (C31)
#ifdef NEO_SHIM_SCHEDULED
extern "C" void neo_shim_access();
    #define NEO_SHIM_ACCESS()                                                                                          \
        do {                                                                                                           \
            if (!std::is_constant_evaluated()) {                                                                       \
                neo_shim_access();                                                                                     \
            }                                                                                                          \
        } while (false)
#else
    #define NEO_SHIM_ACCESS() ((void)0)
#endif

namespace Kokkos {

using std::dynamic_extent;

namespace detail_shim {

[[noreturn]] inline void fail(char const* what, long long a, long long b)
{
    std::fprintf(stderr, "MDSPAN-MONITOR: %s (%lld, limit %lld)\n", what, a, b);
    std::fflush(stderr);
    std::abort();
}

template<typename T>
constexpr auto to_ll(T v) -> long long
{
    return static_cast<long long>(v);
}

}  // namespace detail_shim

///////////////////////////////////////////////////////////////////////////////////////////// extents

template<typename IndexType, std::size_t... Es>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return sizeof...(Es); }

    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type
    {
        return (rank_type(0) + ... + rank_type(Es == dynamic_extent ? 1 : 0));
    }

    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        std::array<std::size_t, sizeof...(Es) + 1> a{Es..., 0};
        return a[r];
    }

    constexpr extents() noexcept
    {
        for (rank_type r = 0; r < rank(); ++r) {
            _e[r] = static_extent(r) == dynamic_extent ? index_type(0) : static_cast<index_type>(static_extent(r));
        }
    }

    template<typename... Idx>
        requires((std::is_convertible_v<Idx, IndexType> && ...) && sizeof...(Idx) > 0
                 && (sizeof...(Idx) == sizeof...(Es)
                     || sizeof...(Idx) == (std::size_t(0) + ... + std::size_t(Es == dynamic_extent ? 1 : 0))))
    constexpr explicit extents(Idx... idx) noexcept : extents()
    {
        assign(std::array<index_type, sizeof...(Idx)>{static_cast<index_type>(idx)...});
    }

    template<typename Idx, std::size_t N>
        requires(std::is_convertible_v<Idx, IndexType>
                 && (N == sizeof...(Es) || N == (std::size_t(0) + ... + std::size_t(Es == dynamic_extent ? 1 : 0))))
    constexpr explicit(N != (std::size_t(0) + ... + std::size_t(Es == dynamic_extent ? 1 : 0)))
        extents(std::array<Idx, N> const& a) noexcept
        : extents()
    {
        std::array<index_type, N> b{};
        for (std::size_t i = 0; i < N; ++i) { b[i] = static_cast<index_type>(a[i]); }
        assign(b);
    }

    template<typename Other, std::size_t... OEs>
        requires(sizeof...(OEs) == sizeof...(Es))
    constexpr explicit((((Es != dynamic_extent) && (OEs == dynamic_extent)) || ...)
                       || (std::numeric_limits<IndexType>::max() < std::numeric_limits<Other>::max()))
        extents(extents<Other, OEs...> const& o) noexcept
        : extents()
    {
        for (rank_type r = 0; r < rank(); ++r) {
            if (static_extent(r) != dynamic_extent && detail_shim::to_ll(o.extent(r)) != detail_shim::to_ll(_e[r])) {
                detail_shim::fail("static extent mismatch", detail_shim::to_ll(o.extent(r)), detail_shim::to_ll(_e[r]));
            }
            _e[r] = static_cast<index_type>(o.extent(r));
        }
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type
    {
        if (r >= rank()) { detail_shim::fail("extent() rank out of range", detail_shim::to_ll(r), rank()); }
        return _e[r];
    }

    template<typename Other, std::size_t... OEs>
    [[nodiscard]] friend constexpr auto operator==(extents const& l, extents<Other, OEs...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(OEs) != sizeof...(Es)) {
            return false;
        } else {
            for (rank_type i = 0; i < rank(); ++i) {
                if (detail_shim::to_ll(l.extent(i)) != detail_shim::to_ll(r.extent(i))) { return false; }
            }
            return true;
        }
    }

private:
    template<std::size_t N>
    constexpr auto assign(std::array<index_type, N> const& a) noexcept -> void
    {
        if constexpr (N == sizeof...(Es)) {
            for (rank_type r = 0; r < rank(); ++r) {
                if (static_extent(r) != dynamic_extent && a[r] != _e[r]) {
                    detail_shim::fail("static extent mismatch", detail_shim::to_ll(a[r]), detail_shim::to_ll(_e[r]));
                }
                _e[r] = a[r];
            }
        } else {
            rank_type k = 0;
            for (rank_type r = 0; r < rank(); ++r) {
                if (static_extent(r) == dynamic_extent) { _e[r] = a[k++]; }
            }
        }
    }

    std::array<index_type, sizeof...(Es) == 0 ? 1 : sizeof...(Es)> _e{};
};

template<typename... Idx>
extents(Idx...) -> extents<std::size_t, ((void)sizeof(Idx), dynamic_extent)...>;

namespace detail_shim {

template<typename IndexType, typename Seq>
struct make_dextents;

template<typename IndexType, std::size_t... Is>
struct make_dextents<IndexType, std::index_sequence<Is...>>
{
    using type = extents<IndexType, ((void)Is, dynamic_extent)...>;
};

}  // namespace detail_shim

template<typename IndexType, std::size_t Rank>
using dextents = typename detail_shim::make_dextents<IndexType, std::make_index_sequence<Rank>>::type;

template<std::size_t Rank, typename IndexType = std::size_t>
using dims = dextents<IndexType, Rank>;

///////////////////////////////////////////////////////////////////////////////////////////// layouts

namespace detail_shim {

template<typename Mapping, typename Extents>
constexpr auto check_indices(Extents const& e, auto... idx) -> void
{
    std::array<long long, sizeof...(idx) + 1> a{to_ll(idx)..., 0};
    for (std::size_t r = 0; r < sizeof...(idx); ++r) {
        if (a[r] < 0 || a[r] >= to_ll(e.extent(r))) { fail("index out of range", a[r], to_ll(e.extent(r))); }
    }
}

template<typename Extents>
constexpr auto product(Extents const& e) -> typename Extents::index_type
{
    typename Extents::index_type n = 1;
    for (std::size_t r = 0; r < Extents::rank(); ++r) { n = static_cast<typename Extents::index_type>(n * e.extent(r)); }
    return n;
}

}  // namespace detail_shim

struct layout_right
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_right;

        constexpr mapping() noexcept = default;

        constexpr mapping(extents_type const& e) noexcept : _e{e} {}

        template<typename OtherExt>
            requires(std::is_constructible_v<Extents, OtherExt>)
        constexpr explicit(!std::is_convertible_v<OtherExt, Extents>) mapping(mapping<OtherExt> const& o) noexcept
            : _e{extents_type(o.extents())}
        {}

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _e; }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            return detail_shim::product(_e);
        }

        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type
        {
            index_type s = 1;
            for (rank_type i = r + 1; i < extents_type::rank(); ++i) { s = static_cast<index_type>(s * _e.extent(i)); }
            return s;
        }

        template<typename... Idx>
            requires(sizeof...(Idx) == Extents::rank())
        [[nodiscard]] constexpr auto operator()(Idx... idx) const noexcept -> index_type
        {
            detail_shim::check_indices<mapping>(_e, idx...);
            index_type off = 0;
            rank_type r    = 0;
            ((off = static_cast<index_type>(off * _e.extent(r++) + static_cast<index_type>(idx))), ...);
            return off;
        }

        [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_exhaustive() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }

        template<typename OtherExt>
        [[nodiscard]] friend constexpr auto operator==(mapping const& l, mapping<OtherExt> const& r) noexcept -> bool
        {
            return l.extents() == r.extents();
        }

    private:
        extents_type _e{};
    };
};

struct layout_left
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_left;

        constexpr mapping() noexcept = default;

        constexpr mapping(extents_type const& e) noexcept : _e{e} {}

        template<typename OtherExt>
            requires(std::is_constructible_v<Extents, OtherExt>)
        constexpr explicit(!std::is_convertible_v<OtherExt, Extents>) mapping(mapping<OtherExt> const& o) noexcept
            : _e{extents_type(o.extents())}
        {}

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _e; }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            return detail_shim::product(_e);
        }

        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type
        {
            index_type s = 1;
            for (rank_type i = 0; i < r; ++i) { s = static_cast<index_type>(s * _e.extent(i)); }
            return s;
        }

        template<typename... Idx>
            requires(sizeof...(Idx) == Extents::rank())
        [[nodiscard]] constexpr auto operator()(Idx... idx) const noexcept -> index_type
        {
            detail_shim::check_indices<mapping>(_e, idx...);
            std::array<index_type, sizeof...(Idx) + 1> a{static_cast<index_type>(idx)..., index_type(0)};
            index_type off = 0;
            for (rank_type r = sizeof...(Idx); r-- > 0;) { off = static_cast<index_type>(off * _e.extent(r) + a[r]); }
            return off;
        }

        [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_exhaustive() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }

        template<typename OtherExt>
        [[nodiscard]] friend constexpr auto operator==(mapping const& l, mapping<OtherExt> const& r) noexcept -> bool
        {
            return l.extents() == r.extents();
        }

    private:
        extents_type _e{};
    };
};

struct layout_stride
{
    template<typename Extents>
    struct mapping
    {
        using extents_type = Extents;
        using index_type   = typename Extents::index_type;
        using size_type    = typename Extents::size_type;
        using rank_type    = typename Extents::rank_type;
        using layout_type  = layout_stride;

        constexpr mapping() noexcept
        {
            auto const m = layout_right::mapping<Extents>{};
            for (rank_type r = 0; r < Extents::rank(); ++r) { _s[r] = m.stride(r); }
        }

        template<typename Idx>
            requires(std::is_convertible_v<Idx, index_type>)
        constexpr mapping(extents_type const& e, std::array<Idx, Extents::rank()> const& s) noexcept : _e{e}
        {
            for (rank_type r = 0; r < Extents::rank(); ++r) { _s[r] = static_cast<index_type>(s[r]); }
        }

        template<typename Other>
            requires(std::is_constructible_v<Extents, typename Other::extents_type>
                     && Other::extents_type::rank() == Extents::rank() && Other::is_always_unique()
                     && Other::is_always_strided())
        constexpr mapping(Other const& o) noexcept : _e{extents_type(o.extents())}
        {
            for (rank_type r = 0; r < Extents::rank(); ++r) { _s[r] = static_cast<index_type>(o.stride(r)); }
        }

        [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _e; }

        [[nodiscard]] constexpr auto strides() const noexcept -> std::array<index_type, Extents::rank()>
        {
            std::array<index_type, Extents::rank()> s{};
            for (rank_type r = 0; r < Extents::rank(); ++r) { s[r] = _s[r]; }
            return s;
        }

        [[nodiscard]] constexpr auto required_span_size() const noexcept -> index_type
        {
            index_type n = 1;
            for (rank_type r = 0; r < Extents::rank(); ++r) {
                if (_e.extent(r) == 0) { return 0; }
                n = static_cast<index_type>(n + (_e.extent(r) - 1) * _s[r]);
            }
            return n;
        }

        [[nodiscard]] constexpr auto stride(rank_type r) const noexcept -> index_type { return _s[r]; }

        template<typename... Idx>
            requires(sizeof...(Idx) == Extents::rank())
        [[nodiscard]] constexpr auto operator()(Idx... idx) const noexcept -> index_type
        {
            detail_shim::check_indices<mapping>(_e, idx...);
            index_type off = 0;
            rank_type r    = 0;
            ((off = static_cast<index_type>(off + static_cast<index_type>(idx) * _s[r++])), ...);
            return off;
        }

        [[nodiscard]] static constexpr auto is_always_unique() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        [[nodiscard]] static constexpr auto is_always_strided() noexcept -> bool { return true; }
        [[nodiscard]] static constexpr auto is_unique() noexcept -> bool { return true; }
        [[nodiscard]] constexpr auto is_exhaustive() const noexcept -> bool
        {
            return required_span_size() == detail_shim::product(_e);
        }
        [[nodiscard]] static constexpr auto is_strided() noexcept -> bool { return true; }

    private:
        extents_type _e{};
        std::array<index_type, Extents::rank() == 0 ? 1 : Extents::rank()> _s{};
    };
};

///////////////////////////////////////////////////////////////////////////////////////////// accessor

template<typename ElementType>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = ElementType;
    using reference        = ElementType&;
    using data_handle_type = ElementType*;

    constexpr default_accessor() noexcept = default;

    template<typename Other>
        requires(std::is_convertible_v<Other (*)[], ElementType (*)[]>)
    constexpr default_accessor(default_accessor<Other> /*o*/) noexcept
    {}

    [[nodiscard]] constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference { return p[i]; }
    [[nodiscard]] constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type
    {
        return p + i;
    }
};

///////////////////////////////////////////////////////////////////////////////////////////// mdspan

template<
    typename ElementType,
    typename Extents,
    typename LayoutPolicy   = layout_right,
    typename AccessorPolicy = default_accessor<ElementType>>
struct mdspan
{
    using extents_type     = Extents;
    using layout_type      = LayoutPolicy;
    using accessor_type    = AccessorPolicy;
    using mapping_type     = typename LayoutPolicy::template mapping<Extents>;
    using element_type     = ElementType;
    using value_type       = std::remove_cv_t<ElementType>;
    using index_type       = typename Extents::index_type;
    using size_type        = typename Extents::size_type;
    using rank_type        = typename Extents::rank_type;
    using data_handle_type = typename AccessorPolicy::data_handle_type;
    using reference        = typename AccessorPolicy::reference;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        return Extents::static_extent(r);
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }

    constexpr mdspan()
        requires(Extents::rank_dynamic() > 0)
    = default;
    constexpr mdspan(mdspan const&)                    = default;
    constexpr mdspan(mdspan&&)                         = default;
    constexpr auto operator=(mdspan const&) -> mdspan& = default;
    constexpr auto operator=(mdspan&&) -> mdspan&      = default;

    template<typename... Idx>
        requires((std::is_convertible_v<Idx, index_type> && ...)
                 && (sizeof...(Idx) == Extents::rank() || sizeof...(Idx) == Extents::rank_dynamic())
                 && std::is_constructible_v<mapping_type, Extents> && std::is_default_constructible_v<AccessorPolicy>)
    constexpr explicit mdspan(data_handle_type p, Idx... idx)
        : _p{std::move(p)}, _m{extents_type(static_cast<index_type>(idx)...)}, _a{}
    {}

    template<typename Idx, std::size_t N>
        requires(std::is_convertible_v<Idx, index_type> && (N == Extents::rank() || N == Extents::rank_dynamic()))
    constexpr explicit(N != Extents::rank_dynamic()) mdspan(data_handle_type p, std::array<Idx, N> const& e)
        : _p{std::move(p)}, _m{extents_type(e)}, _a{}
    {}

    constexpr mdspan(data_handle_type p, extents_type const& e)
        requires(std::is_constructible_v<mapping_type, extents_type const&>
                 && std::is_default_constructible_v<AccessorPolicy>)
        : _p{std::move(p)}, _m{e}, _a{}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m)
        requires(std::is_default_constructible_v<AccessorPolicy>)
        : _p{std::move(p)}, _m{m}, _a{}
    {}

    constexpr mdspan(data_handle_type p, mapping_type const& m, accessor_type const& a)
        : _p{std::move(p)}, _m{m}, _a{a}
    {}

    template<typename OE, typename OExt, typename OL, typename OA>
        requires(std::is_constructible_v<mapping_type, typename OL::template mapping<OExt> const&>
                 && std::is_constructible_v<AccessorPolicy, OA const&>
                 && std::is_constructible_v<data_handle_type, typename OA::data_handle_type const&>)
    constexpr explicit(!std::is_convertible_v<typename OL::template mapping<OExt> const&, mapping_type>
                       || !std::is_convertible_v<OA const&, AccessorPolicy>) mdspan(mdspan<OE, OExt, OL, OA> const& o)
        : _p{o.data_handle()}, _m{o.mapping()}, _a{o.accessor()}
    {}

    template<typename... Idx>
        requires(sizeof...(Idx) == Extents::rank() && (std::is_convertible_v<Idx, index_type> && ...))
    [[nodiscard]] constexpr auto operator()(Idx... idx) const -> reference
    {
        NEO_SHIM_ACCESS();
        return _a.access(_p, static_cast<std::size_t>(_m(idx...)));
    }

    template<typename Idx>
        requires(Extents::rank() == 1 && std::is_convertible_v<Idx, index_type>)
    [[nodiscard]] constexpr auto operator[](Idx idx) const -> reference
    {
        NEO_SHIM_ACCESS();
        return _a.access(_p, static_cast<std::size_t>(_m(idx)));
    }

    template<typename Idx>
        requires(std::is_convertible_v<Idx, index_type>)
    [[nodiscard]] constexpr auto operator[](std::array<Idx, Extents::rank()> const& idx) const -> reference
    {
        return std::apply([this](auto... i) -> reference { return (*this)(i...); }, idx);
    }

    template<typename Idx>
        requires(std::is_convertible_v<Idx, index_type>)
    [[nodiscard]] constexpr auto operator()(std::array<Idx, Extents::rank()> const& idx) const -> reference
    {
        return std::apply([this](auto... i) -> reference { return (*this)(i...); }, idx);
    }

    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        return static_cast<size_type>(detail_shim::product(_m.extents()));
    }

    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }

    [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _m.extents(); }
    [[nodiscard]] constexpr auto data_handle() const noexcept -> data_handle_type const& { return _p; }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    [[nodiscard]] constexpr auto accessor() const noexcept -> accessor_type const& { return _a; }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _m.stride(r); }

    [[nodiscard]] static constexpr auto is_always_unique() -> bool { return mapping_type::is_always_unique(); }
    [[nodiscard]] static constexpr auto is_always_exhaustive() -> bool { return mapping_type::is_always_exhaustive(); }
    [[nodiscard]] static constexpr auto is_always_strided() -> bool { return mapping_type::is_always_strided(); }
    [[nodiscard]] constexpr auto is_unique() const -> bool { return _m.is_unique(); }
    [[nodiscard]] constexpr auto is_exhaustive() const -> bool { return _m.is_exhaustive(); }
    [[nodiscard]] constexpr auto is_strided() const -> bool { return _m.is_strided(); }

    friend constexpr auto swap(mdspan& x, mdspan& y) noexcept -> void
    {
        std::swap(x._p, y._p);
        std::swap(x._m, y._m);
        std::swap(x._a, y._a);
    }

private:
    data_handle_type _p{};
    mapping_type _m{};
    [[no_unique_address]] accessor_type _a{};
};

template<typename ElementType, typename... Idx>
    requires(sizeof...(Idx) > 0 && (std::is_convertible_v<Idx, std::size_t> && ...))
explicit mdspan(ElementType*, Idx...) -> mdspan<ElementType, dextents<std::size_t, sizeof...(Idx)>>;

template<typename ElementType, typename Idx, std::size_t N>
mdspan(ElementType*, std::array<Idx, N> const&) -> mdspan<ElementType, dextents<std::size_t, N>>;

template<typename ElementType, typename IndexType, std::size_t... Es>
mdspan(ElementType*, extents<IndexType, Es...> const&) -> mdspan<ElementType, extents<IndexType, Es...>>;

template<typename ElementType, typename Mapping>
    requires requires { typename Mapping::layout_type; }
mdspan(ElementType*, Mapping const&)
    -> mdspan<ElementType, typename Mapping::extents_type, typename Mapping::layout_type>;

template<typename Mapping, typename Accessor>
mdspan(typename Accessor::data_handle_type const&, Mapping const&, Accessor const&)
    -> mdspan<
        typename Accessor::element_type,
        typename Mapping::extents_type,
        typename Mapping::layout_type,
        Accessor>;

///////////////////////////////////////////////////////////////////////////////////////////// submdspan

struct full_extent_t
{
    explicit full_extent_t() = default;
};

inline constexpr auto full_extent = full_extent_t{};

template<typename Offset, typename Extent, typename Stride>
struct strided_slice
{
    using offset_type = Offset;
    using extent_type = Extent;
    using stride_type = Stride;
    [[no_unique_address]] Offset offset{};
    [[no_unique_address]] Extent extent{};
    [[no_unique_address]] Stride stride{};
};

template<typename Offset, typename Extent, typename Stride>
strided_slice(Offset, Extent, Stride) -> strided_slice<Offset, Extent, Stride>;

namespace detail_shim {

template<typename T>
inline constexpr bool is_strided_slice = false;
template<typename O, typename E, typename S>
inline constexpr bool is_strided_slice<strided_slice<O, E, S>> = true;

template<typename S>
inline constexpr bool is_full = std::is_same_v<std::remove_cvref_t<S>, full_extent_t>;

template<typename S, typename Index>
inline constexpr bool is_index = std::is_convertible_v<S, Index> && !is_full<S>;

// kind: 0 = index, 1 = full extent, 2 = range, 3 = strided
template<typename S, typename Index>
constexpr auto kind() -> int
{
    if constexpr (is_full<S>) {
        return 1;
    } else if constexpr (is_index<S, Index>) {
        return 0;
    } else if constexpr (is_strided_slice<std::remove_cvref_t<S>>) {
        return 3;
    } else {
        return 2;
    }
}

template<typename Layout>
constexpr auto keeps_layout(auto const& kinds, std::size_t rank, std::size_t sub) -> bool
{
    if (std::is_same_v<Layout, layout_stride>) { return false; }
    if (sub == 0) { return true; }
    for (std::size_t i = 0; i < rank; ++i) {
        if (kinds[i] == 3) { return false; }
    }
    if constexpr (std::is_same_v<Layout, layout_left>) {
        // the first sub-1 slices are full, slice sub-1 is full or a range, the rest are indices
        for (std::size_t i = 0; i + 1 < sub; ++i) {
            if (kinds[i] != 1) { return false; }
        }
        if (kinds[sub - 1] == 0) { return false; }
        for (std::size_t i = sub; i < rank; ++i) {
            if (kinds[i] != 0) { return false; }
        }
        return true;
    } else if constexpr (std::is_same_v<Layout, layout_right>) {
        for (std::size_t i = rank - sub + 1; i < rank; ++i) {
            if (kinds[i] != 1) { return false; }
        }
        if (kinds[rank - sub] == 0) { return false; }
        for (std::size_t i = 0; i < rank - sub; ++i) {
            if (kinds[i] != 0) { return false; }
        }
        return true;
    } else {
        return false;
    }
}

template<typename Index, std::size_t... Out>
struct size_list
{
    using type = extents<Index, Out...>;
};

template<typename Index, typename Src, typename Acc, std::size_t R, typename... Slices>
struct sub_extents;

template<typename Index, typename Src, std::size_t... Out, std::size_t R>
struct sub_extents<Index, Src, size_list<Index, Out...>, R>
{
    using type = extents<Index, Out...>;
};

template<typename Index, typename Src, std::size_t... Out, std::size_t R, typename S, typename... Rest>
struct sub_extents<Index, Src, size_list<Index, Out...>, R, S, Rest...>
{
    static constexpr int k = kind<S, Index>();
    using next             = std::conditional_t<
        k == 0,
        size_list<Index, Out...>,
        std::conditional_t<
            k == 1,
            size_list<Index, Out..., Src::static_extent(R)>,
            size_list<Index, Out..., dynamic_extent>>>;
    using type = typename sub_extents<Index, Src, next, R + 1, Rest...>::type;
};

struct slice_info
{
    long long offset{0};
    long long extent{0};
    long long stride{1};
    int kind{0};
};

template<typename Index, typename S>
constexpr auto resolve(S const& s, long long ext) -> slice_info
{
    constexpr int k = kind<S, Index>();
    auto info       = slice_info{};
    info.kind       = k;
    if constexpr (k == 0) {
        info.offset = to_ll(static_cast<Index>(s));
        if (info.offset < 0 || info.offset >= ext) { fail("submdspan index out of range", info.offset, ext); }
    } else if constexpr (k == 1) {
        info.extent = ext;
    } else if constexpr (k == 3) {
        info.offset = to_ll(static_cast<Index>(s.offset));
        auto len    = to_ll(static_cast<Index>(s.extent));
        info.stride = to_ll(static_cast<Index>(s.stride));
        info.extent = len == 0 ? 0 : 1 + (len - 1) / info.stride;
        if (info.offset < 0 || len < 0 || info.offset + len > ext) { fail("submdspan slice out of range", info.offset + len, ext); }
    } else {
        auto const first = to_ll(static_cast<Index>(std::get<0>(s)));
        auto const last  = to_ll(static_cast<Index>(std::get<1>(s)));
        if (first < 0 || first > last) { fail("submdspan range reversed", first, last); }
        if (last > ext) { fail("submdspan range out of bounds", last, ext); }
        info.offset = first;
        info.extent = last - first;
    }
    return info;
}

}  // namespace detail_shim

template<typename ElementType, typename Extents, typename Layout, typename Accessor, typename... Slices>
    requires(sizeof...(Slices) == Extents::rank())
[[nodiscard]] constexpr auto submdspan(mdspan<ElementType, Extents, Layout, Accessor> const& src, Slices... slices)
{
    using namespace detail_shim;
    using Index              = typename Extents::index_type;
    constexpr auto src_rank  = Extents::rank();
    constexpr auto kinds     = std::array<int, src_rank + 1>{kind<Slices, Index>()..., 0};
    constexpr auto sub_rank  = (std::size_t(0) + ... + std::size_t(kind<Slices, Index>() != 0));
    using SubExt             = typename sub_extents<Index, Extents, size_list<Index>, 0, Slices...>::type;
    constexpr bool keep      = keeps_layout<Layout>(kinds, src_rank, sub_rank);
    using SubLayout          = std::conditional_t<keep, Layout, layout_stride>;

    auto infos = std::array<slice_info, src_rank + 1>{};
    {
        std::size_t r = 0;
        ((infos[r] = resolve<Index>(slices, to_ll(src.extent(r))), ++r), ...);
    }

    auto ext     = std::array<Index, sub_rank>{};
    auto strides = std::array<Index, sub_rank>{};
    auto k       = std::size_t(0);
    auto offset  = std::size_t(0);
    auto oob     = false;
    for (std::size_t r = 0; r < src_rank; ++r) {
        // an empty range may start one past the end: it then has no valid element and the offset is not formed
        if (infos[r].offset >= to_ll(src.extent(r)) && infos[r].kind != 0) { oob = oob || infos[r].offset != 0; }
        offset += static_cast<std::size_t>(infos[r].offset) * static_cast<std::size_t>(src.stride(r));
        if (infos[r].kind != 0) {
            ext[k]     = static_cast<Index>(infos[r].extent);
            strides[k] = static_cast<Index>(src.stride(r) * static_cast<Index>(infos[r].stride));
            ++k;
        }
    }
    if (oob) { offset = static_cast<std::size_t>(src.mapping().required_span_size()); }

    using SubAccessor = typename Accessor::offset_policy;
    using Result      = mdspan<typename SubAccessor::element_type, SubExt, SubLayout, SubAccessor>;
    using Mapping     = typename SubLayout::template mapping<SubExt>;
    auto const sub_acc = SubAccessor(src.accessor());
    auto const handle  = src.accessor().offset(src.data_handle(), offset);
    if constexpr (sub_rank == 0) {
        return Result{handle, Mapping{SubExt{}}, sub_acc};
    } else if constexpr (std::is_same_v<SubLayout, layout_stride>) {
        return Result{handle, Mapping{SubExt(ext), strides}, sub_acc};
    } else {
        return Result{handle, Mapping{SubExt(ext)}, sub_acc};
    }
}

}  // namespace Kokkos
