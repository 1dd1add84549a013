// Types whose customisations of obake's functions are chosen at compile time and which record how they are called.
#ifndef CUST_HPP
#define CUST_HPP

#include <cstddef>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cu
{

// M: which customisations exist (4 external, 2 argument-dependent lookup, 1 internal to the library).
// N: they are noexcept. R: they return the required type.
template <unsigned M, bool N, bool R>
struct ty {
    int v = 0;
};

template <typename T>
struct info {
    static constexpr bool is = false, nx = false, ret = false;
    static constexpr unsigned mask = 0;
};
template <unsigned M, bool N, bool R>
struct info<ty<M, N, R>> {
    static constexpr bool is = true, nx = N, ret = R;
    static constexpr unsigned mask = M;
};
template <typename T>
using plain = std::remove_cv_t<std::remove_reference_t<T>>;

// The first ty among the arguments.
template <typename... A>
struct first_ty {
    using type = void;
};
template <typename A0, typename... A>
struct first_ty<A0, A...> {
    using type = std::conditional_t<info<plain<A0>>::is, plain<A0>, typename first_ty<A...>::type>;
};
template <typename... A>
using first_ty_t = typename first_ty<A...>::type;
template <typename... A>
inline constexpr unsigned mask_of = info<first_ty_t<A...>>::mask;
template <typename... A>
inline constexpr bool nx_of = info<first_ty_t<A...>>::nx;

template <typename A0, typename...>
struct first_empty : std::is_empty<plain<A0>> {
};
template <unsigned Bit, typename... A>
inline constexpr bool adl_ok = (mask_of<A...> & Bit) != 0u && !first_empty<A...>::value;

struct arg {
    const void *p;
    int cat; // 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
    bool operator==(const arg &) const = default;
};
template <typename A>
arg arg_of(A &&a)
{
    constexpr int c = (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0) + (std::is_lvalue_reference_v<A> ? 0 : 2);
    return {static_cast<const void *>(std::addressof(a)), c};
}

struct trace_t {
    int who = 0, calls = 0;
    bool tmpl_ok = true;
    std::vector<arg> args;
};
inline trace_t tr;

enum kind { k_int, k_size, k_self, k_pair, k_bool, k_void };

template <typename A0, typename... A>
int value_of(const A0 &a0, const A &...a)
{
    if constexpr (info<A0>::is) {
        return a0.v;
    } else {
        return value_of(a...);
    }
}

template <int Who, kind K, typename... A>
auto rec(A &&...a) noexcept(nx_of<A...>)
{
    using X = first_ty_t<A...>;
    tr.who = Who;
    ++tr.calls;
    tr.args = {arg_of(std::forward<A>(a))...};
    const int v = value_of(a...);
    if constexpr (K == k_void) {
        // Whatever is returned has to be thrown away.
        return 12;
    } else if constexpr (K == k_bool) {
        return (v & 1) ? 256 : 0;
    } else if constexpr (K == k_int || !info<X>::ret) {
        return Who * 1000 + v;
    } else if constexpr (K == k_size) {
        return static_cast<std::size_t>(Who * 1000 + v);
    } else if constexpr (K == k_self) {
        return X{Who * 1000 + v};
    } else {
        return std::pair<int, X>(v, X{Who * 1000 + v});
    }
}

// The types of the ty arguments, as references.
template <typename... A>
using ty_args = decltype(std::tuple_cat(
    std::declval<std::conditional_t<info<plain<A>>::is, std::tuple<std::type_identity<A &&>>, std::tuple<>>>()...));
template <typename... Ts>
struct same_prefix {
    template <typename... A>
    static constexpr bool with(std::tuple<A...> *)
    {
        return []<std::size_t... I>(std::index_sequence<I...>) {
            return (std::is_same_v<std::tuple_element_t<I, std::tuple<std::type_identity<Ts>...>>,
                                   std::tuple_element_t<I, std::tuple<A...>>>
                    && ...);
        }(std::make_index_sequence<sizeof...(A)>{});
    }
};

template <int Who, kind K, typename... Ts>
struct fn {
    template <typename... A>
    auto operator()(A &&...a) const noexcept(nx_of<A...>)
    {
        tr.tmpl_ok = same_prefix<Ts...>::with(static_cast<ty_args<A...> *>(nullptr));
        return rec<Who, K>(std::forward<A>(a)...);
    }
};

} // namespace cu

// Argument-dependent lookup.
#define CU_ADL(name, K)                                                                                                \
    namespace cu                                                                                                       \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires(adl_ok<2u, A...>) auto name(A &&...a) noexcept(nx_of<A...>)                                               \
    {                                                                                                                  \
        return rec<2, K>(std::forward<A>(a)...);                                                                       \
    }                                                                                                                  \
    }
// External and internal customisation by a tag.
#define CU_TAG(name, K)                                                                                                \
    namespace cu                                                                                                       \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires((mask_of<A...> & 4u) != 0u) auto name(obake::customisation::name##_t, A &&...a) noexcept(nx_of<A...>)     \
    {                                                                                                                  \
        return rec<1, K>(std::forward<A>(a)...);                                                                       \
    }                                                                                                                  \
    }
#define CU_ITAG(name, K)                                                                                               \
    namespace cu                                                                                                       \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires((mask_of<A...> & 1u) != 0u) auto name(obake::customisation::internal::name##_t, A &&...a) noexcept(       \
        nx_of<A...>)                                                                                                   \
    {                                                                                                                  \
        return rec<3, K>(std::forward<A>(a)...);                                                                       \
    }                                                                                                                  \
    }
// By a variable template.
#define CU_VAR(name, K)                                                                                                \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    template <typename T>                                                                                              \
    requires((cu::mask_of<T> & 4u) != 0u) inline constexpr auto name<T> = cu::fn<1, K, T>{};                           \
    }
#define CU_VAR2(name, K)                                                                                               \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    template <typename T, typename U>                                                                                  \
    requires((cu::mask_of<T> & 4u) != 0u) inline constexpr auto name<T, U> = cu::fn<1, K, T, U>{};                     \
    }
#define CU_VAR3(name, K)                                                                                               \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    template <typename T, typename U, typename V>                                                                      \
    requires((cu::mask_of<T> & 4u) != 0u) inline constexpr auto name<T, U, V> = cu::fn<1, K, T, U, V>{};               \
    }
#define CU_IVAR(name, K)                                                                                               \
    namespace obake::customisation::internal                                                                           \
    {                                                                                                                  \
    template <typename T>                                                                                              \
    requires((cu::mask_of<T> & 1u) != 0u) inline constexpr auto name<T> = cu::fn<3, K, T>{};                           \
    }
#define CU_IVAR2(name, K)                                                                                              \
    namespace obake::customisation::internal                                                                           \
    {                                                                                                                  \
    template <typename T, typename U>                                                                                  \
    requires((cu::mask_of<T> & 1u) != 0u) inline constexpr auto name<T, U> = cu::fn<3, K, T, U>{};                     \
    }

#endif
