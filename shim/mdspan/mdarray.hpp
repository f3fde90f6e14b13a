#pragma once

#include "mdspan.hpp"

#include <initializer_list>
#include <vector>

namespace Kokkos::Experimental {

template<
    typename ElementType,
    typename Extents,
    typename LayoutPolicy = Kokkos::layout_right,
    typename Container    = std::vector<ElementType>>
struct mdarray
{
    using extents_type    = Extents;
    using layout_type     = LayoutPolicy;
    using container_type  = Container;
    using mapping_type    = typename LayoutPolicy::template mapping<Extents>;
    using element_type    = ElementType;
    using mdspan_type     = Kokkos::mdspan<ElementType, Extents, LayoutPolicy>;
    using const_mdspan_type = Kokkos::mdspan<ElementType const, Extents, LayoutPolicy>;
    using value_type      = std::remove_cv_t<ElementType>;
    using index_type      = typename Extents::index_type;
    using size_type       = typename Extents::size_type;
    using rank_type       = typename Extents::rank_type;
    using pointer         = ElementType*;
    using reference       = ElementType&;
    using const_pointer   = ElementType const*;
    using const_reference = ElementType const&;

    [[nodiscard]] static constexpr auto rank() noexcept -> rank_type { return Extents::rank(); }
    [[nodiscard]] static constexpr auto rank_dynamic() noexcept -> rank_type { return Extents::rank_dynamic(); }
    [[nodiscard]] static constexpr auto static_extent(rank_type r) noexcept -> std::size_t
    {
        return Extents::static_extent(r);
    }

    [[nodiscard]] constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }

    constexpr mdarray() : _c(make(mapping_type{})) {}
    mdarray(mdarray const&)                      = default;
    mdarray(mdarray&&)                           = default;
    auto operator=(mdarray const&) -> mdarray&   = default;
    auto operator=(mdarray&&) -> mdarray&        = default;
    ~mdarray()                                   = default;

    template<typename... Idx>
        requires((std::is_convertible_v<Idx, index_type> && ...) && sizeof...(Idx) > 0
                 && (sizeof...(Idx) == Extents::rank_dynamic() || sizeof...(Idx) == Extents::rank()))
    explicit constexpr mdarray(Idx... e) : mdarray(extents_type(static_cast<index_type>(e)...))
    {}

    explicit constexpr mdarray(extents_type const& e) : mdarray(mapping_type(e)) {}
    explicit constexpr mdarray(mapping_type const& m) : _m{m}, _c(make(m)) {}

    constexpr mdarray(extents_type const& e, value_type const& v) : mdarray(mapping_type(e), v) {}
    constexpr mdarray(mapping_type const& m, value_type const& v)
        : _m{m}, _c(make(m, v))
    {}

    template<typename OE, typename OExt, typename OL, typename OA>
        requires(std::is_constructible_v<value_type, typename OA::reference> && std::is_constructible_v<Extents, OExt>)
    explicit constexpr mdarray(Kokkos::mdspan<OE, OExt, OL, OA> const& o) : mdarray(mapping_type(extents_type(o.extents())))
    {
        assign_from(o);
    }

    template<typename OE, typename OExt, typename OL, typename OC>
        requires((!std::is_same_v<mdarray, mdarray<OE, OExt, OL, OC>>) && std::is_constructible_v<value_type, OE>
                 && std::is_constructible_v<Extents, OExt>)
    explicit constexpr mdarray(mdarray<OE, OExt, OL, OC> const& o) : mdarray(mapping_type(extents_type(o.extents())))
    {
        assign_from(o);
    }

    constexpr mdarray(extents_type const& e, container_type const& c) : _m{e}, _c{c} { check(); }
    constexpr mdarray(mapping_type const& m, container_type const& c) : _m{m}, _c{c} { check(); }
    constexpr mdarray(extents_type const& e, container_type&& c) : _m{e}, _c{std::move(c)} { check(); }
    constexpr mdarray(mapping_type const& m, container_type&& c) : _m{m}, _c{std::move(c)} { check(); }

    template<typename... Idx>
        requires(sizeof...(Idx) == Extents::rank() && (std::is_convertible_v<Idx, index_type> && ...))
    [[nodiscard]] constexpr auto operator()(Idx... idx) noexcept -> reference
    {
        return _c[static_cast<std::size_t>(_m(idx...))];
    }

    template<typename... Idx>
        requires(sizeof...(Idx) == Extents::rank() && (std::is_convertible_v<Idx, index_type> && ...))
    [[nodiscard]] constexpr auto operator()(Idx... idx) const noexcept -> const_reference
    {
        return _c[static_cast<std::size_t>(_m(idx...))];
    }

    template<typename Idx>
        requires(Extents::rank() == 1 && std::is_convertible_v<Idx, index_type>)
    [[nodiscard]] constexpr auto operator[](Idx idx) noexcept -> reference
    {
        return _c[static_cast<std::size_t>(_m(idx))];
    }

    template<typename Idx>
        requires(Extents::rank() == 1 && std::is_convertible_v<Idx, index_type>)
    [[nodiscard]] constexpr auto operator[](Idx idx) const noexcept -> const_reference
    {
        return _c[static_cast<std::size_t>(_m(idx))];
    }

    [[nodiscard]] constexpr auto data() noexcept -> pointer { return _c.data(); }
    [[nodiscard]] constexpr auto data() const noexcept -> const_pointer { return _c.data(); }
    [[nodiscard]] constexpr auto container() noexcept -> container_type& { return _c; }
    [[nodiscard]] constexpr auto container() const noexcept -> container_type const& { return _c; }
    [[nodiscard]] constexpr auto extract_container() && -> container_type&& { return std::move(_c); }
    [[nodiscard]] constexpr auto container_size() const noexcept -> std::size_t { return _c.size(); }
    [[nodiscard]] constexpr auto size() const noexcept -> size_type
    {
        return static_cast<size_type>(Kokkos::detail_shim::product(_m.extents()));
    }
    [[nodiscard]] constexpr auto empty() const noexcept -> bool { return size() == 0; }
    [[nodiscard]] constexpr auto extents() const noexcept -> extents_type const& { return _m.extents(); }
    [[nodiscard]] constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    [[nodiscard]] constexpr auto stride(rank_type r) const -> index_type { return _m.stride(r); }

    [[nodiscard]] static constexpr auto is_always_unique() -> bool { return mapping_type::is_always_unique(); }
    [[nodiscard]] static constexpr auto is_always_exhaustive() -> bool { return mapping_type::is_always_exhaustive(); }
    [[nodiscard]] static constexpr auto is_always_strided() -> bool { return mapping_type::is_always_strided(); }
    [[nodiscard]] constexpr auto is_unique() const -> bool { return _m.is_unique(); }
    [[nodiscard]] constexpr auto is_exhaustive() const -> bool { return _m.is_exhaustive(); }
    [[nodiscard]] constexpr auto is_strided() const -> bool { return _m.is_strided(); }

    [[nodiscard]] constexpr auto to_mdspan() -> mdspan_type { return mdspan_type(_c.data(), _m); }
    [[nodiscard]] constexpr auto to_mdspan() const -> const_mdspan_type { return const_mdspan_type(_c.data(), _m); }

    template<typename OE, typename OExt, typename OL, typename OA>
        requires(std::is_assignable_v<Kokkos::mdspan<OE, OExt, OL, OA>, mdspan_type>)
    [[nodiscard]] constexpr operator Kokkos::mdspan<OE, OExt, OL, OA>()
    {
        return to_mdspan();
    }

    template<typename OE, typename OExt, typename OL, typename OA>
        requires(std::is_assignable_v<Kokkos::mdspan<OE, OExt, OL, OA>, const_mdspan_type>)
    [[nodiscard]] constexpr operator Kokkos::mdspan<OE, OExt, OL, OA>() const
    {
        return to_mdspan();
    }

    friend constexpr auto swap(mdarray& l, mdarray& r) noexcept -> void
    {
        std::swap(l._m, r._m);
        std::swap(l._c, r._c);
    }

private:
    template<typename... V>
    static constexpr auto make(mapping_type const& m, V const&... v) -> container_type
    {
        auto const n = static_cast<std::size_t>(m.required_span_size());
        if constexpr (std::is_constructible_v<container_type, std::size_t, V const&...>) {
            return container_type(n, v...);
        } else {
            auto c = container_type{};
            if (c.size() < n) {
                Kokkos::detail_shim::fail(
                    "mdarray container too small", static_cast<long long>(c.size()), static_cast<long long>(n)
                );
            }
            (c.fill(v), ...);
            return c;
        }
    }

    template<typename Other, typename... Idx>
    constexpr auto assign_from(Other const& o, Idx... idx) -> void
    {
        if constexpr (sizeof...(Idx) == Extents::rank()) {
            _c[static_cast<std::size_t>(_m(idx...))] = static_cast<value_type>(o(idx...));
        } else {
            for (auto i = index_type(0); i < extent(sizeof...(Idx)); ++i) {
                assign_from(o, idx..., i);
            }
        }
    }

    constexpr auto check() const -> void
    {
        if (_c.size() < static_cast<std::size_t>(_m.required_span_size())) {
            Kokkos::detail_shim::fail(
                "mdarray container too small",
                static_cast<long long>(_c.size()),
                static_cast<long long>(_m.required_span_size())
            );
        }
    }

    mapping_type _m{};
    container_type _c{};
};

}  // namespace Kokkos::Experimental
