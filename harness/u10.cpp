// U10: what counts as a key, a coefficient, a tag, a series, and which operations between series exist, with which result.
#include <pbt.hpp>

#include <complex>
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/detail/mppp_utils.hpp>
#include <obake/kpack.hpp>
#include <obake/math/pow.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

#include "ukey.hpp"

namespace u10_ns
{
// The requirements, as bits: a type lacks those in its mask.
enum cf_bit : unsigned {
    c_default,
    c_copy,
    c_copy_assign,
    c_move,
    c_move_assign,
    c_swap,
    c_zero,
    c_zero_const,
    c_zero_bool,
    c_stream,
    c_stream_const,
    c_add,
    c_add_lvalue,
    c_add_rvalue,
    c_add_const_lhs,
    c_sub,
    c_sub_lvalue,
    c_sub_rvalue,
    c_sub_const_lhs,
    c_negate,
    c_negate_rvalue,
    // From here on, what is not required.
    c_eq,
    c_bin,
    c_from_int,
    c_add_value,
    c_bits
};
constexpr unsigned cf_required = c_eq;

struct not_bool {
};
template <unsigned long M>
struct cf {
    static constexpr bool lacks(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    int v = 0;
    cf() requires(!lacks(c_default))
    {
    }
    cf(const cf &) requires(!lacks(c_copy))
    = default;
    cf(const cf &) requires(lacks(c_copy))
    = delete;
    cf(cf &&) requires(!lacks(c_move))
    = default;
    cf(cf &&) requires(lacks(c_move))
    = delete;
    cf &operator=(const cf &) requires(!lacks(c_copy_assign))
    = default;
    cf &operator=(const cf &) requires(lacks(c_copy_assign))
    = delete;
    cf &operator=(cf &&) requires(!lacks(c_move_assign))
    = default;
    cf &operator=(cf &&) requires(lacks(c_move_assign))
    = delete;
    explicit cf(int n) requires(!lacks(c_from_int))
        : v(n)
    {
    }
    friend bool is_zero(const cf &x) requires(!lacks(c_zero) && !lacks(c_zero_const) && !lacks(c_zero_bool))
    {
        return x.v == 0;
    }
    friend bool is_zero(cf &x) requires(!lacks(c_zero) && lacks(c_zero_const) && !lacks(c_zero_bool))
    {
        return x.v == 0;
    }
    friend not_bool is_zero(const cf &) requires(!lacks(c_zero) && lacks(c_zero_bool))
    {
        return {};
    }
    friend void cf_stream_insert(std::ostream &os, const cf &x) requires(!lacks(c_stream) && !lacks(c_stream_const))
    {
        os << x.v;
    }
    friend void cf_stream_insert(std::ostream &os, cf &x) requires(!lacks(c_stream) && lacks(c_stream_const))
    {
        os << x.v;
    }
    friend void negate(cf &x) requires(!lacks(c_negate) && !lacks(c_negate_rvalue))
    {
        x.v = -x.v;
    }
    // Only of rvalues.
    friend void negate(cf &&x) requires(!lacks(c_negate) && lacks(c_negate_rvalue))
    {
        x.v = -x.v;
    }
    friend bool operator==(const cf &, const cf &) requires(!lacks(c_eq))
    {
        return true;
    }
    friend cf operator+(const cf &a, const cf &) requires(!lacks(c_bin))
    {
        return a;
    }
};
template <unsigned long M>
void swap(cf<M> &, cf<M> &) requires(cf<M>::lacks(c_swap))
= delete;
template <unsigned long M>
bool operator==(const cf<M> &, const cf<M> &) requires(cf<M>::lacks(c_eq))
= delete;
// Sums in place; the left side, then the right side as an lvalue and as an rvalue.
#define U10_SUM(op, all, lv, rv, lhs)                                                                                  \
    template <unsigned long M>                                                                                         \
    std::conditional_t<cf<M>::lacks(c_add_value), int, cf<M> &> operator op(cf<M> &, const cf<M> &) requires(         \
        !cf<M>::lacks(all) && !cf<M>::lacks(lv) && !cf<M>::lacks(lhs));                                                \
    template <unsigned long M>                                                                                         \
    std::conditional_t<cf<M>::lacks(c_add_value), int, cf<M> &> operator op(cf<M> &, cf<M> &) requires(               \
        !cf<M>::lacks(all) && cf<M>::lacks(lv) && !cf<M>::lacks(lhs));                                                 \
    template <unsigned long M>                                                                                         \
    std::conditional_t<cf<M>::lacks(c_add_value), int, cf<M> &> operator op(cf<M> &, cf<M> &&) requires(              \
        !cf<M>::lacks(all) && !cf<M>::lacks(rv) && !cf<M>::lacks(lhs));                                                \
    template <unsigned long M>                                                                                         \
    void operator op(cf<M> &, cf<M> &&) requires(!cf<M>::lacks(all) && cf<M>::lacks(rv) && !cf<M>::lacks(lhs))         \
    = delete;                                                                                                          \
    template <unsigned long M>                                                                                         \
    void operator op(cf<M> &&, const cf<M> &) requires(!cf<M>::lacks(all) && cf<M>::lacks(lhs));
U10_SUM(+=, c_add, c_add_lvalue, c_add_rvalue, c_add_const_lhs)
U10_SUM(-=, c_sub, c_sub_lvalue, c_sub_rvalue, c_sub_const_lhs)

enum key_bit : unsigned {
    k_default,
    k_copy,
    k_copy_assign,
    k_move,
    k_move_assign,
    k_swap,
    k_symbols,
    k_symbols_const,
    k_hash,
    k_hash_const,
    k_hash_size,
    k_eq,
    k_eq_const,
    k_eq_bool,
    k_ne,
    k_zero,
    k_zero_const,
    k_zero_bool,
    k_one,
    k_one_const,
    k_one_bool,
    k_compat,
    k_compat_const,
    k_compat_bool,
    k_stream,
    k_stream_const,
    // Not required of a key.
    k_merge,
    k_degree,
    k_less,
    k_bits
};
constexpr unsigned key_required = k_merge;

// Of a kind: the function named, for constants, for mutable objects only, or with a result that is not a truth value.
#define U10_KEY_FN(nm, bit, cbit, bbit)                                                                                \
    friend bool nm(const key &, const obake::symbol_set &) requires(!lacks(bit) && !lacks(cbit) && !lacks(bbit))       \
    {                                                                                                                  \
        return false;                                                                                                  \
    }                                                                                                                  \
    friend bool nm(key &, const obake::symbol_set &) requires(!lacks(bit) && lacks(cbit) && !lacks(bbit))              \
    {                                                                                                                  \
        return false;                                                                                                  \
    }                                                                                                                  \
    friend not_bool nm(const key &, const obake::symbol_set &) requires(!lacks(bit) && lacks(bbit))                    \
    {                                                                                                                  \
        return {};                                                                                                     \
    }
template <unsigned long M>
struct key {
    static constexpr bool lacks(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    int v = 0;
    key() requires(!lacks(k_default))
    {
    }
    key(const key &) requires(!lacks(k_copy))
    = default;
    key(const key &) requires(lacks(k_copy))
    = delete;
    key(key &&) requires(!lacks(k_move))
    = default;
    key(key &&) requires(lacks(k_move))
    = delete;
    key &operator=(const key &) requires(!lacks(k_copy_assign))
    = default;
    key &operator=(const key &) requires(lacks(k_copy_assign))
    = delete;
    key &operator=(key &&) requires(!lacks(k_move_assign))
    = default;
    key &operator=(key &&) requires(lacks(k_move_assign))
    = delete;
    explicit key(const obake::symbol_set &) requires(!lacks(k_symbols) && !lacks(k_symbols_const))
    {
    }
    explicit key(obake::symbol_set &) requires(!lacks(k_symbols) && lacks(k_symbols_const))
    {
    }
    friend std::size_t hash(const key &) requires(!lacks(k_hash) && !lacks(k_hash_const) && !lacks(k_hash_size))
    {
        return 0;
    }
    friend std::size_t hash(key &) requires(!lacks(k_hash) && lacks(k_hash_const) && !lacks(k_hash_size))
    {
        return 0;
    }
    friend unsigned hash(const key &) requires(!lacks(k_hash) && lacks(k_hash_size))
    {
        return 0;
    }
    U10_KEY_FN(key_is_zero, k_zero, k_zero_const, k_zero_bool)
    U10_KEY_FN(key_is_one, k_one, k_one_const, k_one_bool)
    U10_KEY_FN(key_is_compatible, k_compat, k_compat_const, k_compat_bool)
    friend void key_stream_insert(std::ostream &, const key &, const obake::symbol_set &) requires(!lacks(k_stream)
                                                                                                   && !lacks(k_stream_const))
    {
    }
    friend void key_stream_insert(std::ostream &, key &, const obake::symbol_set &) requires(!lacks(k_stream)
                                                                                             && lacks(k_stream_const))
    {
    }
    friend key key_merge_symbols(const key &x, const obake::symbol_idx_map<obake::symbol_set> &,
                                 const obake::symbol_set &) requires(!lacks(k_merge))
    {
        return x;
    }
    friend int key_degree(const key &, const obake::symbol_set &) requires(!lacks(k_degree))
    {
        return 0;
    }
    friend bool operator<(const key &, const key &) requires(!lacks(k_less))
    {
        return false;
    }
};

template <unsigned long M>
bool operator==(const key<M> &, const key<M> &) requires(!key<M>::lacks(k_eq) && !key<M>::lacks(k_eq_const)
                                                         && !key<M>::lacks(k_eq_bool));
template <unsigned long M>
bool operator==(key<M> &, key<M> &) requires(!key<M>::lacks(k_eq) && key<M>::lacks(k_eq_const) && !key<M>::lacks(k_eq_bool));
template <unsigned long M>
not_bool operator==(const key<M> &, const key<M> &) requires(!key<M>::lacks(k_eq) && key<M>::lacks(k_eq_bool));
template <unsigned long M>
bool operator!=(const key<M> &, const key<M> &) requires(!key<M>::lacks(k_eq) && !key<M>::lacks(k_ne)
                                                         && !key<M>::lacks(k_eq_const));
template <unsigned long M>
void swap(key<M> &, key<M> &) requires(key<M>::lacks(k_swap))
= delete;
template <unsigned long M>
bool operator!=(const key<M> &, const key<M> &) requires(key<M>::lacks(k_ne))
= delete;

enum tag_bit : unsigned { t_default, t_copy, t_copy_assign, t_move, t_move_assign, t_swap, t_bits };
template <unsigned long M>
struct tag {
    static constexpr bool lacks(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    int v = 0;
    tag() requires(!lacks(t_default))
    {
    }
    tag(const tag &) requires(!lacks(t_copy))
    = default;
    tag(const tag &) requires(lacks(t_copy))
    = delete;
    tag(tag &&) requires(!lacks(t_move))
    = default;
    tag(tag &&) requires(lacks(t_move))
    = delete;
    tag &operator=(const tag &) requires(!lacks(t_copy_assign))
    = default;
    tag &operator=(const tag &) requires(lacks(t_copy_assign))
    = delete;
    tag &operator=(tag &&) requires(!lacks(t_move_assign))
    = default;
    tag &operator=(tag &&) requires(lacks(t_move_assign))
    = delete;
};
template <unsigned long M>
void swap(tag<M> &, tag<M> &) requires(tag<M>::lacks(t_swap))
= delete;
union a_union {
    int i;
};
enum class an_enum { a };

// The degree of a key of power series, with bits of its own.
enum deg_bit : unsigned {
    d_default,
    d_copy,
    d_copy_assign,
    d_swap,
    d_from_int,
    d_less,
    d_less_const,
    d_hash,
    d_eq,
    d_stream,
    d_stream_result,
    // Of the key.
    d_no_total,
    d_no_partial,
    d_other_partial,
    d_not_key,
    // Not required.
    d_add,
    d_bits
};
constexpr unsigned deg_required = d_add;
template <unsigned long M>
struct deg {
    static constexpr bool lacks(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    int v = 0;
    deg() requires(!lacks(d_default))
    {
    }
    explicit deg(int n) requires(!lacks(d_from_int))
        : v(n)
    {
    }
    deg(const deg &) requires(!lacks(d_copy))
    = default;
    deg(const deg &) requires(lacks(d_copy))
    = delete;
    deg(deg &&) = default;
    deg &operator=(const deg &) requires(!lacks(d_copy_assign))
    = default;
    deg &operator=(const deg &) requires(lacks(d_copy_assign))
    = delete;
    deg &operator=(deg &&) = default;
    friend bool operator<(const deg &a, const deg &b) requires(!lacks(d_less) && !lacks(d_less_const))
    {
        return a.v < b.v;
    }
    friend bool operator<(deg &a, deg &b) requires(!lacks(d_less) && lacks(d_less_const))
    {
        return a.v < b.v;
    }
    friend std::size_t hash(const deg &) requires(!lacks(d_hash))
    {
        return 0;
    }
    friend bool operator==(const deg &, const deg &) requires(!lacks(d_eq))
    {
        return true;
    }
    friend deg operator+(const deg &a, const deg &) requires(!lacks(d_add))
    {
        return a;
    }
};
template <unsigned long M>
void swap(deg<M> &, deg<M> &) requires(deg<M>::lacks(d_swap))
= delete;
template <unsigned long M>
std::ostream &operator<<(std::ostream &os, const deg<M> &) requires(!deg<M>::lacks(d_stream)
                                                                    && !deg<M>::lacks(d_stream_result));
template <unsigned long M>
void operator<<(std::ostream &os, const deg<M> &) requires(!deg<M>::lacks(d_stream) && deg<M>::lacks(d_stream_result));

template <unsigned long M>
struct pkey : uk::ukey {
    using uk::ukey::ukey;
};
template <unsigned long M>
std::size_t hash(const pkey<M> &) requires(!deg<M>::lacks(d_not_key));
template <unsigned long M>
std::size_t hash(const pkey<M> &) requires(deg<M>::lacks(d_not_key))
= delete;
template <unsigned long M>
deg<M> key_degree(const pkey<M> &, const obake::symbol_set &) requires(!deg<M>::lacks(d_no_total));
template <unsigned long M>
std::conditional_t<deg<M>::lacks(d_other_partial), deg<(1ul << 63)>, deg<M>>
key_p_degree(const pkey<M> &, const obake::symbol_idx_set &, const obake::symbol_set &) requires(!deg<M>::lacks(d_no_partial));

// A key which cannot take more symbols.
struct fixed_key : uk::ukey {
    using uk::ukey::ukey;
};
inline fixed_key key_merge_symbols(const fixed_key &, const obake::symbol_idx_map<obake::symbol_set> &,
                                   const obake::symbol_set &)
    = delete;
// Nothing can be done with it.
struct inert {
};
} // namespace u10_ns

namespace
{
using namespace u10_ns;
using Z = mppp::integer<1>;
using Q = mppp::rational<1>;
using pk = obake::polynomials::packed_monomial<std::int32_t>;
using pl = obake::polynomials::packed_monomial<std::int64_t>;
using dk = obake::polynomials::d_packed_monomial<std::int32_t, 8>;
using dl = obake::polynomials::d_packed_monomial<std::int32_t, 4>;
using obake::p_series;
using obake::polynomial;
using obake::series;
using uk::ukey;
using uk::utag;

template <typename T>
struct ty {
    using type = T;
};
template <typename... Ts>
struct tl {
};
template <typename... Ts>
constexpr std::size_t count(tl<Ts...>)
{
    return sizeof...(Ts);
}
template <typename... Ts, typename F>
void by_index(std::uint64_t k, tl<Ts...>, F &&f)
{
    std::uint64_t i = 0;
    ((i++ == k ? (f(ty<Ts>{}), 0) : 0), ...);
}
template <typename T>
std::string tname()
{
    const std::string s = __PRETTY_FUNCTION__;
    const auto b = s.find("T = ");
    auto r = b == std::string::npos ? s : s.substr(b + 4);
    const auto e = r.find("; std::string");
    return e == std::string::npos ? r : r.substr(0, e);
}

// The k-th mask: none, one bit, and then two bits at a time.
constexpr unsigned long mask_of(std::size_t k, unsigned bits)
{
    if (k == 0) return 0;
    if (k <= bits) return 1ul << (k - 1);
    // Pseudo-random pairs.
    const auto a = (k * 7u + 3u) % bits;
    const auto b = (a + 1u + (k * 5u) % (bits - 1u)) % bits;
    return (1ul << a) | (1ul << b);
}
template <std::size_t N, typename F>
void by_number(std::uint64_t k, F &&f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == k ? (f(std::integral_constant<std::size_t, I>{}), 0) : 0), ...);
    }(std::make_index_sequence<N>{});
}
// Whether all the requirements are there.
constexpr bool meets(unsigned long m, unsigned required)
{
    return (m & ((1ul << required) - 1u)) == 0u;
}
} // namespace

#if VARIANT == 1
namespace
{
constexpr bool expect_cf(unsigned long m)
{
    constexpr auto zero = (1ul << c_zero) | (1ul << c_zero_const) | (1ul << c_zero_bool);
    const auto has = [m](unsigned b) { return ((m >> b) & 1u) == 0u; };
    bool z = false;
    if (has(c_zero) && has(c_zero_bool) && has(c_zero_const)) {
        z = true;
    } else if (!has(c_zero) || has(c_zero_bool)) {
        // By comparison with zero.
        z = has(c_eq) && has(c_from_int);
    }
    return z && meets(m & ~zero, cf_required);
}

// Coefficients that are known, one way or the other.
template <typename T>
constexpr int known_cf = -1;
#define YES(...)                                                                                                       \
    template <>                                                                                                        \
    constexpr int known_cf<__VA_ARGS__> = 1;
#define NO(...)                                                                                                        \
    template <>                                                                                                        \
    constexpr int known_cf<__VA_ARGS__> = 0;
YES(int) YES(unsigned) YES(long) YES(unsigned long long) YES(double) YES(float) YES(long double) YES(__int128_t) YES(__uint128_t)
YES(short) YES(signed char) YES(Z) YES(Q) YES(std::complex<double>) YES(polynomial<pk, Z>) YES(p_series<pk, Q>)
YES(series<ukey, double, utag>) YES(polynomial<pk, polynomial<dk, Q>>) YES(mppp::integer<2>)
NO(int &) NO(const int) NO(int &&) NO(const Z) NO(Z &) NO(const polynomial<pk, Z> &) NO(void) NO(int *) NO(std::string) NO(an_enum)
NO(pk) NO(ukey) NO(utag) NO(int[2]) NO(void()) NO(std::vector<int>) NO(inert) NO(std::nullptr_t) NO(const polynomial<pk, Z>)
#undef YES
#undef NO
using cf_types
    = tl<int, unsigned, long, unsigned long long, double, float, long double, __int128_t, __uint128_t, short, signed char, Z, Q,
         std::complex<double>, polynomial<pk, Z>, p_series<pk, Q>, series<ukey, double, utag>, polynomial<pk, polynomial<dk, Q>>,
         mppp::integer<2>, int &, const int, int &&, const Z, Z &, const polynomial<pk, Z> &, void, int *, std::string, an_enum,
         pk, ukey, utag, int[2], void(), std::vector<int>, inert, std::nullptr_t, const polynomial<pk, Z>>;
template <typename T>
constexpr int known_key = 0;
template <>
constexpr int known_key<pk> = 1;
template <>
constexpr int known_key<pl> = 1;
template <>
constexpr int known_key<dk> = 1;
template <>
constexpr int known_key<dl> = 1;
template <>
constexpr int known_key<ukey> = 1;
template <>
constexpr int known_key<obake::polynomials::packed_monomial<std::uint32_t>> = 1;
template <>
constexpr int known_key<obake::polynomials::d_packed_monomial<std::uint64_t, 3>> = 1;
template <>
constexpr int known_key<fixed_key> = 1;
using key_types = tl<pk, pl, dk, dl, ukey, obake::polynomials::packed_monomial<std::uint32_t>,
                     obake::polynomials::d_packed_monomial<std::uint64_t, 3>, fixed_key, const pk, pk &, pk &&, const dk &, int, void,
                     double, Z, std::string, obake::symbol_set, utag, polynomial<pk, Z>, inert, pk *, int[2], std::vector<int>>;
template <typename T>
constexpr int known_tag = 0;
template <>
constexpr int known_tag<utag> = 1;
template <>
constexpr int known_tag<obake::polynomials::tag> = 1;
template <>
constexpr int known_tag<obake::power_series::tag<int>> = 1;
template <>
constexpr int known_tag<inert> = 1;
template <>
constexpr int known_tag<std::string> = 1;
template <>
constexpr int known_tag<Z> = 1;
using tag_types = tl<utag, obake::polynomials::tag, obake::power_series::tag<int>, inert, std::string, Z, int, a_union, an_enum, void,
                     const utag, utag &, utag &&, utag *, double, int[2], void()>;
} // namespace

PBT_SUB(coefficients, 60000, 200000,
        "types that lack none, one or two of 25 operations of a coefficient (21 of them required), and 38 known types: accepted as "
        "coefficients when nothing required is missing; non-trivial: something is missing")
{
    constexpr std::size_t N = 1 + c_bits + 60;
    by_number<N>(t.below(N), [&](auto i) {
        constexpr unsigned long M = mask_of(i(), c_bits);
        t.nontrivial(M != 0);
        PBT_CHECK(t, obake::is_cf_v<cf<M>> == expect_cf(M), "is_cf of the type that lacks ", M);
        PBT_CHECK(t, obake::Cf<cf<M>> == expect_cf(M), "Cf of the type that lacks ", M);
        PBT_CHECK(t, !obake::is_cf_v<const cf<M>> && !obake::is_cf_v<cf<M> &>, "is_cf of constants or references");
    });
    by_index(t.below(count(cf_types{})), cf_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        PBT_CHECK(t, obake::is_cf_v<T> == (known_cf<T> == 1), "is_cf of ", tname<T>());
        PBT_CHECK(t, obake::Cf<T> == (known_cf<T> == 1), "Cf of ", tname<T>());
    });
}

PBT_SUB(keys, 60000, 200000,
        "types that lack none, one or two of 29 operations of a key (26 of them required), and 24 known types: accepted as keys "
        "when nothing required is missing; non-trivial: something is missing")
{
    constexpr std::size_t N = 1 + k_bits + 60;
    by_number<N>(t.below(N), [&](auto i) {
        constexpr unsigned long M = mask_of(i(), k_bits);
        t.nontrivial(M != 0);
        PBT_CHECK(t, obake::is_key_v<key<M>> == meets(M, key_required), "is_key of the type that lacks ", M);
        PBT_CHECK(t, obake::Key<key<M>> == meets(M, key_required), "Key of the type that lacks ", M);
        PBT_CHECK(t, !obake::is_key_v<const key<M>> && !obake::is_key_v<key<M> &>, "is_key of constants or references");
    });
    by_index(t.below(count(key_types{})), key_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        PBT_CHECK(t, obake::is_key_v<T> == (known_key<T> == 1), "is_key of ", tname<T>());
        PBT_CHECK(t, obake::Key<T> == (known_key<T> == 1), "Key of ", tname<T>());
    });
}

PBT_SUB(tags, 40000, 200000,
        "types that lack none, one or two of the 6 operations of a tag, and 17 known types, classes and not: accepted as tags when "
        "they are classes and nothing is missing; non-trivial: something is missing")
{
    constexpr std::size_t N = 1 + t_bits + 15;
    by_number<N>(t.below(N), [&](auto i) {
        constexpr unsigned long M = mask_of(i(), t_bits);
        t.nontrivial(M != 0);
        PBT_CHECK(t, obake::is_series_tag_v<tag<M>> == (M == 0), "is_series_tag of the type that lacks ", M);
        PBT_CHECK(t, obake::series_tag<tag<M>> == (M == 0), "series_tag of the type that lacks ", M);
    });
    by_index(t.below(count(tag_types{})), tag_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        PBT_CHECK(t, obake::is_series_tag_v<T> == (known_tag<T> == 1), "is_series_tag of ", tname<T>());
        PBT_CHECK(t, obake::series_tag<T> == (known_tag<T> == 1), "series_tag of ", tname<T>());
    });
}

PBT_SUB(power_series_parts, 40000, 200000,
        "keys whose degrees lack none, one or two of 16 properties (15 of them required), and known types: accepted as keys of power "
        "series when nothing required is missing; coefficients with a degree are refused; non-trivial: something is missing")
{
    constexpr std::size_t N = 1 + d_bits + 40;
    by_number<N>(t.below(N), [&](auto i) {
        constexpr unsigned long M = mask_of(i(), d_bits);
        t.nontrivial(M != 0);
        PBT_CHECK(t, obake::power_series_key<pkey<M>> == meets(M, deg_required), "power_series_key of the key that lacks ", M);
    });
    by_index(t.below(count(key_types{})), key_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        // Of the known keys, these have no degree.
        const bool want = known_key<T> == 1 && !std::is_base_of_v<ukey, T>;
        PBT_CHECK(t, obake::power_series_key<T> == want, "power_series_key of ", tname<T>());
    });
    by_index(t.below(count(cf_types{})), cf_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        const bool deg = obake::is_cvr_series_v<T> && !std::is_same_v<T, series<ukey, double, utag>>;
        PBT_CHECK(t, obake::power_series_cf<T> == (known_cf<T> == 1 && !deg), "power_series_cf of ", tname<T>());
    });
}
#endif

namespace
{
// What a type is, written down independently of the library's queries.
template <typename T>
struct truth {
    static constexpr std::size_t rank = 0;
    static constexpr bool is_series = false, poly = false, ps = false;
    using key = void;
    using cf = void;
    using tag = void;
};
template <typename K, typename C, typename Tag>
struct truth<series<K, C, Tag>> {
    static constexpr std::size_t rank = truth<C>::rank + 1;
    static constexpr bool is_series = true;
    static constexpr bool poly = std::is_same_v<Tag, obake::polynomials::tag>;
    static constexpr bool ps = std::is_same_v<Tag, obake::power_series::tag<std::int32_t>>
                               || std::is_same_v<Tag, obake::power_series::tag<std::int64_t>>;
    using key = K;
    using cf = C;
    using tag = Tag;
};
} // namespace

#if VARIANT == 2
namespace
{
using series_types
    = tl<polynomial<pk, Z>, polynomial<pl, Q>, polynomial<dk, double>, polynomial<pk, polynomial<pk, Z>>,
         polynomial<pk, polynomial<dk, polynomial<pl, Q>>>, p_series<pk, Z>, p_series<pl, double>, p_series<dk, Q>,
         polynomial<pk, p_series<pk, Z>>, series<ukey, Z, utag>, series<pk, Z, utag>, series<ukey, polynomial<pk, Z>, utag>,
         polynomial<ukey, int>, series<ukey, int, inert>, polynomial<fixed_key, Z>, series<pk, Z, Z>, int, double, Z, Q, pk, dk, ukey,
         utag, std::string, void, int *, an_enum, obake::symbol_set, std::vector<polynomial<pk, Z>>, polynomial<pk, Z> *>;
template <typename T>
using rank_got = std::integral_constant<std::size_t, obake::series_rank<T>>;
template <typename S>
concept has_parts = requires
{
    typename obake::series_key_t<S>;
    typename obake::series_cf_t<S>;
    typename obake::series_tag_t<S>;
};
template <typename S>
concept has_any_part = requires
{
    typename obake::series_key_t<S>;
} || requires
{
    typename obake::series_cf_t<S>;
} || requires
{
    typename obake::series_tag_t<S>;
} || requires
{
    typename obake::series_term_t<S>;
};
template <typename T, typename... A>
concept can_make_poly = requires(const A &...a)
{
    obake::make_polynomials<T>(a...);
};
template <typename T, typename... A>
concept can_make_ps = requires(const A &...a)
{
    obake::make_p_series<T>(a...);
};
template <typename T, typename U, typename... A>
concept can_make_ps_t = requires(const U &d, const A &...a)
{
    obake::make_p_series_t<T>(d, a...);
};
template <typename T, typename U, typename... A>
concept can_make_ps_p = requires(const U &d, const obake::symbol_set &s, const A &...a)
{
    obake::make_p_series_p<T>(d, s, a...);
};
// Keys that can be made from exponents.
template <typename K>
constexpr bool from_ints = std::is_same_v<K, pk> || std::is_same_v<K, pl> || std::is_same_v<K, dk> || std::is_base_of_v<ukey, K>;

template <typename A, typename B>
constexpr bool same_pm = false;
template <typename A>
constexpr bool same_pm<obake::polynomials::packed_monomial<A>, obake::polynomials::packed_monomial<A>> = true;
} // namespace

PBT_SUB(recognition, 60000, 200000,
        "31 types, series and not, by value, constant and reference: rank, parts, and the queries for series, polynomials and power "
        "series; generators can be made of the right types; non-trivial: a series")
{
    by_index(t.below(count(series_types{})), series_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        using W = truth<T>;
        const auto n = tname<T>();
        t.nontrivial(W::is_series);
        PBT_CHECK(t, (rank_got<T>::value == W::rank), "rank of ", n);
        PBT_CHECK(t, obake::any_series<T> == W::is_series, "any_series of ", n);
        PBT_CHECK(t, obake::is_cvr_series_v<T> == W::is_series, "is_cvr_series of ", n);
        PBT_CHECK(t, obake::CvrSeries<T> == W::is_series, "CvrSeries of ", n);
        PBT_CHECK(t, obake::CvrSeries<const T> == W::is_series, "CvrSeries of constant ", n);
        PBT_CHECK(t, obake::is_polynomial_v<T> == W::poly, "is_polynomial of ", n);
        PBT_CHECK(t, obake::Polynomial<T> == W::poly, "Polynomial of ", n);
        PBT_CHECK(t, obake::any_p_series<T> == W::ps, "any_p_series of ", n);
        PBT_CHECK(t, !obake::any_series<const T> && !obake::any_p_series<const T> && !obake::is_polynomial_v<const T>,
                  "constant ", n);
        if constexpr (!std::is_void_v<T>) {
            PBT_CHECK(t, obake::CvrSeries<T &> == W::is_series && obake::CvrSeries<const T &> == W::is_series, "reference to ", n);
            PBT_CHECK(t, obake::CvrSeries<T &&> == W::is_series, "reference to ", n);
            PBT_CHECK(t, !obake::any_series<T &> && !obake::any_series<const T &> && !obake::Polynomial<T &>
                             && !obake::any_p_series<T &>,
                      "reference to ", n);
            PBT_CHECK(t, (rank_got<T &>::value == 0), "rank of a reference to ", n);
        }
        PBT_CHECK(t, (rank_got<const T>::value == 0), "rank of constant ", n);
        if constexpr (has_parts<T> && W::is_series) {
            PBT_CHECK(t, (std::is_same_v<obake::series_key_t<T>, typename W::key>), "key of ", n);
            PBT_CHECK(t, (std::is_same_v<obake::series_cf_t<T>, typename W::cf>), "coefficient of ", n);
            PBT_CHECK(t, (std::is_same_v<obake::series_tag_t<T>, typename W::tag>), "tag of ", n);
            PBT_CHECK(t, (std::is_same_v<obake::series_term_t<T>, std::pair<const typename W::key, typename W::cf>>), "term of ", n);
        } else {
            PBT_CHECK(t, !W::is_series, "no parts of ", n);
            PBT_CHECK(t, !has_any_part<T>, "parts of ", n);
        }
        if constexpr (std::is_object_v<T>) {
            // Generators: a name for each, and something to make the key and the coefficient from.
            constexpr bool g = from_ints<typename W::key>;
            const std::pair<bool, bool> rows[] = {
                {can_make_poly<T, std::string>, W::poly && g},
                {can_make_poly<T, const char *, std::string>, W::poly && g},
                {can_make_poly<T, obake::symbol_set, std::string>, W::poly && g},
                {can_make_poly<T>, false},
                {can_make_poly<T, int>, false},
                {can_make_poly<T, std::string, int>, false},
                {can_make_poly<T, obake::symbol_set, int>, false},
                {can_make_ps<T, std::string>, W::ps && g},
                {can_make_ps<T, obake::symbol_set, const char *>, W::ps && g},
                {can_make_ps<T>, false},
                {can_make_ps<T, int>, false},
                {can_make_ps_t<T, int, std::string>, W::ps && g},
                {can_make_ps_t<T, Z, std::string, const char *>, W::ps && g},
                {can_make_ps_t<T, std::string, std::string>, false},
                {can_make_ps_t<T, int, int>, false},
                {can_make_ps_p<T, int, std::string>, W::ps && g},
                {can_make_ps_p<T, inert, std::string>, false},
                {can_make_ps_p<T, int, int>, false},
            };
            int i = 0;
            for (const auto &[got, want] : rows) {
                PBT_CHECK(t, got == want, "generators of ", n, ", row ", i);
                ++i;
            }
        }
    });
    // The smaller queries.
    PBT_CHECK(t, obake::is_kpackable_v<std::int32_t> && obake::is_kpackable_v<std::uint32_t> && obake::is_kpackable_v<std::int64_t>
                     && obake::is_kpackable_v<std::uint64_t> && obake::kpackable<std::int32_t> && obake::kpackable<std::uint64_t>,
              "packable integers");
    PBT_CHECK(t, !obake::is_kpackable_v<short> && !obake::is_kpackable_v<const int> && !obake::is_kpackable_v<int &>
                     && !obake::is_kpackable_v<char> && !obake::is_kpackable_v<double> && !obake::is_kpackable_v<__int128_t>
                     && !obake::is_kpackable_v<void> && !obake::is_kpackable_v<bool> && !obake::kpackable<Z>
                     && !obake::kpackable<const std::int64_t>,
              "not packable");
    PBT_CHECK(t, obake::detail::is_mppp_integer_v<Z> && obake::detail::is_mppp_integer_v<mppp::integer<2>>
                     && !obake::detail::is_mppp_integer_v<Q> && !obake::detail::is_mppp_integer_v<int>
                     && !obake::detail::is_mppp_integer_v<const Z> && !obake::detail::is_mppp_integer_v<Z &>,
              "integers");
    using obake::polynomials::detail::same_d_packed_monomial_v;
    using obake::polynomials::detail::same_packed_monomial_v;
    PBT_CHECK(t, (same_packed_monomial_v<pk, pk>), "same packed monomials");
    PBT_CHECK(t, (!same_packed_monomial_v<pk, pl> && !same_packed_monomial_v<pk, dk> && !same_packed_monomial_v<dk, dk>
                  && !same_packed_monomial_v<int, int> && !same_packed_monomial_v<const pk, pk>),
              "packed monomials");
    PBT_CHECK(t, (same_d_packed_monomial_v<dk, dk> && same_d_packed_monomial_v<dl, dl>), "same packed monomials");
    PBT_CHECK(t, (!same_d_packed_monomial_v<dk, dl> && !same_d_packed_monomial_v<pk, pk> && !same_d_packed_monomial_v<int, int>
                  && !same_d_packed_monomial_v<dk, const dk>),
              "packed monomials");
}

namespace
{
template <typename A, typename B>
concept can_check_ranges = requires(A &&a, B &&b, const obake::symbol_set &ss)
{
    obake::monomial_range_overflow_check(std::forward<A>(a), std::forward<B>(b), ss);
};
template <typename A, typename B, typename C>
concept can_mul = requires(A &&a, B &&b, C &&c, const obake::symbol_set &ss)
{
    obake::monomial_mul(std::forward<A>(a), std::forward<B>(b), std::forward<C>(c), ss);
};
template <typename A, typename U>
concept can_pow = requires(A &&a, U &&n, const obake::symbol_set &ss)
{
    obake::monomial_pow(std::forward<A>(a), std::forward<U>(n), ss);
};
template <typename A, typename U>
concept can_subs = requires(A &&a, const obake::symbol_idx_map<U> &m, const obake::symbol_set &ss)
{
    obake::monomial_subs(std::forward<A>(a), m, ss);
};
template <typename A, typename U>
concept can_evaluate = requires(A &&a, const obake::symbol_idx_map<U> &m, const obake::symbol_set &ss)
{
    obake::key_evaluate(std::forward<A>(a), m, ss);
};
using mono_types = tl<pk, pl, dk, dl, obake::polynomials::packed_monomial<std::uint32_t>,
                      obake::polynomials::d_packed_monomial<std::int64_t, 8>, int, ukey, Z>;
template <typename T>
constexpr bool is_mono = !std::is_same_v<T, int> && !std::is_same_v<T, ukey> && !std::is_same_v<T, Z>;
} // namespace

PBT_SUB(monomial_operations, 60000, 200000,
        "81 pairs of types, 6 of them monomials: ranges can be checked for overflow and monomials multiplied when the types are the "
        "same; powers, substitution and evaluation exist for numbers; the homomorphism of the hash is declared; non-trivial: the same")
{
    by_index(t.below(count(mono_types{})), mono_types{}, [&](auto xa) {
        using A = typename decltype(xa)::type;
        by_index(t.below(count(mono_types{})), mono_types{}, [&](auto xb) {
            using B = typename decltype(xb)::type;
            constexpr bool same = std::is_same_v<A, B> && is_mono<A>;
            t.nontrivial(same);
            const auto n = tname<A>() + " and " + tname<B>();
            PBT_CHECK(t, (can_check_ranges<const std::vector<A> &, const std::vector<B> &> == same), "ranges of ", n);
            PBT_CHECK(t, (can_check_ranges<std::vector<A>, std::vector<B> &> == same), "ranges of ", n);
            PBT_CHECK(t, (can_check_ranges<const A(&)[2], const std::vector<B> &> == same), "ranges of ", n);
            PBT_CHECK(t, (!can_check_ranges<const A &, const std::vector<B> &>), "no range of ", n);
            PBT_CHECK(t, (!can_check_ranges<const std::vector<A> &, const B &>), "no range of ", n);
            PBT_CHECK(t, (can_mul<A &, const B &, const B &> == same), "product of ", n);
            PBT_CHECK(t, (can_mul<B &, const B &, const A &> == same), "product of ", n);
            PBT_CHECK(t, (!can_mul<const A &, const B &, const B &>), "product into a constant of ", n);
        });
        const auto n = tname<A>();
        PBT_CHECK(t, (can_pow<const A &, int> == is_mono<A> && can_pow<const A &, const Z &> == is_mono<A>
                      && can_pow<A, unsigned long long> == is_mono<A>),
                  "powers of ", n);
        PBT_CHECK(t, (!can_pow<const A &, std::string> && !can_pow<const A &, void *> && !can_pow<const A &, inert>), "powers of ", n);
        PBT_CHECK(t, (can_subs<const A &, Z> == is_mono<A>
                      && can_subs<const A &, double> == is_mono<A> && can_subs<const A &, polynomial<pk, Z>> == is_mono<A>),
                  "substitution in ", n);
        PBT_CHECK(t, (!can_subs<const A &, std::string> && !can_subs<const A &, inert>), "substitution in ", n);
        PBT_CHECK(t, (can_evaluate<const A &, double> == is_mono<A> && can_evaluate<const A &, Q> == is_mono<A>
                      && can_evaluate<const A &, polynomial<pk, Z>> == is_mono<A>),
                  "evaluation of ", n);
        PBT_CHECK(t, (!can_evaluate<const A &, std::string> && !can_evaluate<const A &, inert>), "evaluation of ", n);
        PBT_CHECK(t, obake::is_homomorphically_hashable_monomial_v<A> == is_mono<A>, "hash of ", n);
        PBT_CHECK(t, obake::HomomorphicallyHashableMonomial<A> == is_mono<A>, "hash of ", n);
        PBT_CHECK(t, obake::is_symbols_mergeable_key_v<const A &> == (is_mono<A> || std::is_same_v<A, ukey>), "merging of ", n);
        PBT_CHECK(t, obake::is_differentiable_monomial_v<const A &> == is_mono<A>, "derivative of ", n);
        PBT_CHECK(t, obake::is_integrable_monomial_v<const A &> == is_mono<A>, "integral of ", n);
        PBT_CHECK(t, obake::is_key_with_degree_v<const A &> == is_mono<A>, "degree of ", n);
        PBT_CHECK(t, obake::is_key_with_p_degree_v<const A &> == is_mono<A>, "partial degree of ", n);
        PBT_CHECK(t, obake::is_trimmable_key_v<const A &> == is_mono<A>, "trimming of ", n);
    });
}
#endif

#if VARIANT >= 3
namespace
{
using operands = tl<int, double, Z, Q, std::string, inert, polynomial<pk, Z>, polynomial<pk, Q>, polynomial<pk, double>,
                    polynomial<dk, Z>, polynomial<pk, polynomial<pk, Z>>, polynomial<pk, polynomial<dk, Q>>, p_series<pk, Z>,
                    p_series<pk, Q>, polynomial<pk, p_series<pk, Z>>, series<ukey, Z, utag>, series<ukey, Q, utag>,
                    series<pk, Z, utag>, polynomial<ukey, Z>, series<fixed_key, Z, utag>, series<ukey, polynomial<pk, Z>, utag>>;

struct none;
template <typename T>
using R = truth<T>;

// The rules, by recursion on the coefficients.
template <typename S, typename T>
constexpr bool exp_ctor()
{
    if constexpr (std::is_same_v<S, none> || std::is_same_v<T, none>) {
        return false;
    } else if constexpr (R<S>::rank == 0 && R<T>::rank == 0) {
        return std::is_constructible_v<S, const T &>;
    } else if constexpr (R<S>::rank == 0) {
        // Conversion to a number: from zero, or from the only coefficient.
        return std::is_constructible_v<S, int> && exp_ctor<S, typename R<T>::cf>();
    } else if constexpr (std::is_same_v<S, T>) {
        return true;
    } else if constexpr (R<T>::rank < R<S>::rank) {
        return exp_ctor<typename R<S>::cf, T>();
    } else if constexpr (R<T>::rank == R<S>::rank) {
        if constexpr (std::is_same_v<typename R<S>::key, typename R<T>::key>) {
            return exp_ctor<typename R<S>::cf, typename R<T>::cf>();
        } else {
            return false;
        }
    } else {
        return exp_ctor<S, typename R<T>::cf>();
    }
}
template <typename K, typename C, typename Tag>
struct mk {
    using type = series<K, C, Tag>;
};
template <typename K, typename Tag>
struct mk<K, none, Tag> {
    using type = none;
};
template <typename A, typename B>
constexpr bool same_kind
    = std::is_same_v<typename R<A>::key, typename R<B>::key> && std::is_same_v<typename R<A>::tag, typename R<B>::tag>;
template <typename K>
constexpr bool mergeable = !std::is_same_v<K, fixed_key>;

struct plus {
    static constexpr const char *name = "+";
    template <typename A, typename B>
    static auto f(const A &a, const B &b) -> decltype(a + b);
    template <typename A, typename B>
    static auto in(A &a, const B &b) -> decltype(a += b);
};
struct minus {
    static constexpr const char *name = "-";
    template <typename A, typename B>
    static auto f(const A &a, const B &b) -> decltype(a - b);
    template <typename A, typename B>
    static auto in(A &a, const B &b) -> decltype(a -= b);
};
struct times {
    static constexpr const char *name = "*";
    template <typename A, typename B>
    static auto f(const A &a, const B &b) -> decltype(a * b);
    template <typename A, typename B>
    static auto in(A &a, const B &b) -> decltype(a *= b);
};
struct over {
    static constexpr const char *name = "/";
    template <typename A, typename B>
    static auto f(const A &a, const B &b) -> decltype(a / b);
    template <typename A, typename B>
    static auto in(A &a, const B &b) -> decltype(a /= b);
};
template <typename Op, typename A, typename B>
concept plain_op = requires(const A &a, const B &b)
{
    Op::f(a, b);
};
template <typename Op, typename A, typename B>
concept plain_in = requires(A &a, const B &b)
{
    Op::in(a, b);
};
// Numbers can be tested for zero, and so can series.
template <typename A>
constexpr bool testable = R<A>::rank != 0 || std::is_arithmetic_v<A> || std::is_same_v<A, Z> || std::is_same_v<A, Q>;

template <typename Op, typename A, typename B>
constexpr bool exp_in();

template <typename Op, typename A, typename B>
constexpr auto exp_op()
{
    using RA = R<A>;
    using RB = R<B>;
    constexpr bool sum = std::is_same_v<Op, plus> || std::is_same_v<Op, minus>;
    if constexpr (RA::rank == 0 && RB::rank == 0) {
        if constexpr (plain_op<Op, A, B>) {
            return ty<std::remove_cvref_t<decltype(Op::f(std::declval<const A &>(), std::declval<const B &>()))>>{};
        } else {
            return ty<none>{};
        }
    } else if constexpr (RA::rank == RB::rank) {
        if constexpr (!same_kind<A, B> || !mergeable<typename RA::key>) {
            return ty<none>{};
        } else {
            using C = typename decltype(exp_op<Op, typename RA::cf, typename RB::cf>())::type;
            using S = typename mk<typename RA::key, C, typename RA::tag>::type;
            // Products need monomials; there are no quotients.
            if constexpr (sum
                          || (std::is_same_v<Op, times> && !std::is_base_of_v<ukey, typename RA::key> && (RA::poly || RA::ps))) {
                return ty<S>{};
            } else {
                return ty<none>{};
            }
        }
    } else if constexpr (RA::rank < RB::rank) {
        using C = typename decltype(exp_op<Op, A, typename RB::cf>())::type;
        using S = typename mk<typename RB::key, C, typename RB::tag>::type;
        if constexpr (std::is_same_v<C, none> || std::is_same_v<Op, over>) {
            return ty<none>{};
        } else if constexpr (sum) {
            return ty<std::conditional_t<exp_ctor<S, B>() && exp_ctor<C, A>(), S, none>>{};
        } else {
            return ty<std::conditional_t<testable<A> && exp_ctor<S, B>() && exp_in<Op, C, A>(), S, none>>{};
        }
    } else {
        using C = typename decltype(exp_op<Op, typename RA::cf, B>())::type;
        using S = typename mk<typename RA::key, C, typename RA::tag>::type;
        if constexpr (std::is_same_v<C, none>) {
            return ty<none>{};
        } else if constexpr (sum) {
            return ty<std::conditional_t<exp_ctor<S, A>() && exp_ctor<C, B>(), S, none>>{};
        } else {
            return ty<std::conditional_t<testable<B> && exp_ctor<S, A>() && exp_in<Op, C, B>(), S, none>>{};
        }
    }
}
template <typename Op, typename A, typename B>
using exp_op_t = typename decltype(exp_op<Op, A, B>())::type;

// In place, on a mutable left side.
template <typename Op, typename A, typename B>
constexpr bool exp_in()
{
    using RA = R<A>;
    using RB = R<B>;
    constexpr bool sum = std::is_same_v<Op, plus> || std::is_same_v<Op, minus>;
    if constexpr (std::is_same_v<A, none>) {
        return false;
    } else if constexpr (RA::rank == 0 && RB::rank == 0) {
        return plain_in<Op, A, B>;
    } else if constexpr (sum && RA::rank > RB::rank) {
        return exp_ctor<typename RA::cf, B>();
    } else if constexpr (sum && RA::rank == RB::rank) {
        return same_kind<A, B> && mergeable<typename RA::key> && exp_ctor<typename RA::cf, typename RB::cf>();
    } else {
        // Through the binary operation, and back.
        return exp_ctor<A, exp_op_t<Op, A, B>>();
    }
}
template <typename A, typename B>
constexpr bool exp_eq()
{
    using RA = R<A>;
    using RB = R<B>;
    if constexpr (RA::rank == 0 && RB::rank == 0) {
        if constexpr (std::is_same_v<A, B>) {
            return !std::is_same_v<A, inert>;
        } else {
            return testable<A> && testable<B>;
        }
    } else if constexpr (RA::rank == RB::rank) {
        return same_kind<A, B> && mergeable<typename RA::key> && exp_eq<typename RA::cf, typename RB::cf>();
    } else if constexpr (RA::rank < RB::rank) {
        return testable<A> && exp_eq<A, typename RB::cf>();
    } else {
        return testable<B> && exp_eq<typename RA::cf, B>();
    }
}

// The library's answer, by category of the operands.
template <typename A, typename B>
concept has_plus = requires(A &&a, B &&b)
{
    std::forward<A>(a) + std::forward<B>(b);
};
template <typename A, typename B>
concept has_minus = requires(A &&a, B &&b)
{
    std::forward<A>(a) - std::forward<B>(b);
};
template <typename A, typename B>
concept has_times = requires(A &&a, B &&b)
{
    std::forward<A>(a) * std::forward<B>(b);
};
template <typename A, typename B>
concept has_over = requires(A &&a, B &&b)
{
    std::forward<A>(a) / std::forward<B>(b);
};
template <typename A, typename B>
concept has_iplus = requires(A &&a, B &&b)
{
    std::forward<A>(a) += std::forward<B>(b);
};
template <typename A, typename B>
concept has_iminus = requires(A &&a, B &&b)
{
    std::forward<A>(a) -= std::forward<B>(b);
};
template <typename A, typename B>
concept has_itimes = requires(A &&a, B &&b)
{
    std::forward<A>(a) *= std::forward<B>(b);
};
template <typename A, typename B>
concept has_iover = requires(A &&a, B &&b)
{
    std::forward<A>(a) /= std::forward<B>(b);
};
template <typename A, typename B>
concept has_eq = requires(A &&a, B &&b)
{
    std::forward<A>(a) == std::forward<B>(b);
    std::forward<A>(a) != std::forward<B>(b);
};
#define U10_RESULT(nm, op)                                                                                             \
    template <typename A, typename B>                                                                                  \
    constexpr auto r_##nm()                                                                                            \
    {                                                                                                                  \
        if constexpr (has_##nm<A, B>) {                                                                                \
            return ty<decltype(std::declval<A>() op std::declval<B>())>{};                                             \
        } else {                                                                                                       \
            return ty<none>{};                                                                                         \
        }                                                                                                              \
    }
U10_RESULT(plus, +)
U10_RESULT(minus, -)
U10_RESULT(times, *)
U10_RESULT(over, /)
U10_RESULT(iplus, +=)
U10_RESULT(iminus, -=)
U10_RESULT(itimes, *=)
U10_RESULT(iover, /=)

#define SAME(r, A, B, ...) (std::is_same_v<typename decltype(r<A, B>())::type, __VA_ARGS__>)

template <typename F>
void pairs(pbt::T &t, F &&f)
{
    by_index(t.below(count(operands{})), operands{}, [&](auto xa) {
        using A = typename decltype(xa)::type;
        by_index(t.below(count(operands{})), operands{}, [&](auto xb) {
            using B = typename decltype(xb)::type;
            // Not the operators of the numbers.
            if constexpr (R<A>::rank != 0 || R<B>::rank != 0) f(ty<A>{}, ty<B>{}, tname<A>() + " and " + tname<B>());
        });
    });
}
} // namespace
#endif

#if VARIANT == 3
PBT_SUB(sums, 60000, 200000,
        "all pairs of 21 operands (numbers, strings, series of ranks 1 and 2 with different keys, coefficients and tags): sums and "
        "differences exist, for lvalues, constants and rvalues, exactly by the rules on ranks, keys, tags and coefficients, with the "
        "type of the result by the same rules; non-trivial: they exist")
{
    pairs(t, [&](auto xa, auto xb, const std::string &n) {
        using A = typename decltype(xa)::type;
        using B = typename decltype(xb)::type;
        using P = exp_op_t<plus, A, B>;
        using M = exp_op_t<minus, A, B>;
        t.nontrivial(!std::is_same_v<P, none>);
        PBT_CHECK(t, SAME(r_plus, const A &, const B &, P), "sum of ", n);
        PBT_CHECK(t, SAME(r_plus, A &, B &&, P), "sum of mutable and rvalue ", n);
        PBT_CHECK(t, SAME(r_plus, A &&, const B &, P), "sum of rvalue and constant ", n);
        PBT_CHECK(t, SAME(r_plus, A &&, B &&, P), "sum of rvalues ", n);
        PBT_CHECK(t, SAME(r_minus, const A &, const B &, M), "difference of ", n);
        PBT_CHECK(t, SAME(r_minus, A &, B &&, M), "difference of mutable and rvalue ", n);
        PBT_CHECK(t, SAME(r_minus, A &&, const B &, M), "difference of rvalue and constant ", n);
        PBT_CHECK(t, SAME(r_minus, A &&, B &&, M), "difference of rvalues ", n);
    });
}

PBT_SUB(sums_in_place, 60000, 200000,
        "the same pairs: sums in place exist on everything but constants, exactly by the rules, and yield the left side; "
        "non-trivial: they exist")
{
    pairs(t, [&](auto xa, auto xb, const std::string &n) {
        using A = typename decltype(xa)::type;
        using B = typename decltype(xb)::type;
        constexpr bool p = exp_in<plus, A, B>(), m = exp_in<minus, A, B>();
        using P = std::conditional_t<p, A &, none>;
        using M = std::conditional_t<m, A &, none>;
        t.nontrivial(p);
        PBT_CHECK(t, SAME(r_iplus, A &, const B &, P), "sum in place of ", n);
        PBT_CHECK(t, SAME(r_iplus, A &, B &&, P), "sum in place of rvalue ", n);
        PBT_CHECK(t, SAME(r_iplus, A &, B &, P), "sum in place of mutable ", n);
        PBT_CHECK(t, SAME(r_iplus, const A &, const B &, none), "sum in place of constant ", n);
        PBT_CHECK(t, SAME(r_iminus, A &, const B &, M), "difference in place of ", n);
        PBT_CHECK(t, SAME(r_iminus, A &, B &&, M), "difference in place of rvalue ", n);
        PBT_CHECK(t, SAME(r_iminus, const A &, const B &, none), "difference in place of constant ", n);
    });
}
#endif

#if VARIANT == 4
PBT_SUB(products, 60000, 200000,
        "all pairs of 21 operands: products and quotients exist exactly by the rules on ranks, keys, tags and coefficients, with the "
        "type of the result by the same rules, and in place; non-trivial: the product exists")
{
    pairs(t, [&](auto xa, auto xb, const std::string &n) {
        using A = typename decltype(xa)::type;
        using B = typename decltype(xb)::type;
        using P = exp_op_t<times, A, B>;
        using D = exp_op_t<over, A, B>;
        t.nontrivial(!std::is_same_v<P, none>);
        PBT_CHECK(t, SAME(r_times, const A &, const B &, P), "product of ", n);
        PBT_CHECK(t, SAME(r_times, A &, B &&, P), "product of mutable and rvalue ", n);
        PBT_CHECK(t, SAME(r_times, A &&, B &&, P), "product of rvalues ", n);
        PBT_CHECK(t, SAME(r_over, const A &, const B &, D), "quotient of ", n);
        PBT_CHECK(t, SAME(r_over, A &&, B &&, D), "quotient of rvalues ", n);
        using PI = std::conditional_t<exp_in<times, A, B>(), A &, none>;
        using DI = std::conditional_t<exp_in<over, A, B>(), A &, none>;
        PBT_CHECK(t, SAME(r_itimes, A &, const B &, PI), "product in place of ", n);
        PBT_CHECK(t, SAME(r_itimes, A &, B &&, PI), "product in place of rvalue ", n);
        PBT_CHECK(t, SAME(r_itimes, const A &, const B &, none), "product in place of constant ", n);
        PBT_CHECK(t, SAME(r_iover, A &, const B &, DI), "quotient in place of ", n);
        PBT_CHECK(t, SAME(r_iover, const A &, const B &, none), "quotient in place of constant ", n);
    });
}
#endif

#if VARIANT == 5
PBT_SUB(comparisons, 60000, 200000,
        "all pairs of 21 operands: comparisons for equality exist exactly by the rules, either way around; non-trivial: they exist")
{
    pairs(t, [&](auto xa, auto xb, const std::string &n) {
        using A = typename decltype(xa)::type;
        using B = typename decltype(xb)::type;
        constexpr bool e = exp_eq<A, B>();
        t.nontrivial(e);
        PBT_CHECK(t, (has_eq<const A &, const B &> == e), "comparison of ", n);
        PBT_CHECK(t, (has_eq<A, B> == e), "comparison of rvalues ", n);
        PBT_CHECK(t, (has_eq<A &, const B &> == e), "comparison of mutable ", n);
    });
}

PBT_SUB(conversions, 60000, 200000,
        "all pairs of 21 operands: construction, assignment and conversion between numbers and series of different ranks, keys, "
        "coefficients and tags exist exactly by the rules, never implicitly; non-trivial: they exist")
{
    pairs(t, [&](auto xs, auto xt, const std::string &n) {
        using S = typename decltype(xs)::type;
        using T = typename decltype(xt)::type;
        constexpr bool c = exp_ctor<S, T>();
        t.nontrivial(c && !std::is_same_v<S, T>);
        PBT_CHECK(t, (std::is_constructible_v<S, const T &> == c), "construction of ", n);
        PBT_CHECK(t, (std::is_constructible_v<S, T> == c), "construction from an rvalue of ", n);
        PBT_CHECK(t, (std::is_constructible_v<S, T &> == c), "construction from a mutable lvalue of ", n);
        PBT_CHECK(t, (std::is_convertible_v<const T &, S> == std::is_same_v<S, T>), "implicit conversion of ", n);
        if constexpr (R<S>::rank != 0) {
            using K = typename R<S>::key;
            using C = typename R<S>::cf;
            using G = typename R<S>::tag;
            PBT_CHECK(t, (std::is_assignable_v<S &, const T &> == c), "assignment of ", n);
            PBT_CHECK(t, (std::is_assignable_v<S &, T> == c), "assignment of an rvalue of ", n);
            PBT_CHECK(t, (!std::is_assignable_v<const S &, const T &>), "assignment to a constant of ", n);
            const bool g = c && !std::is_same_v<S, T>;
            PBT_CHECK(t, (obake::is_series_constructible_v<const T &, K, C, G> == g), "is_series_constructible of ", n);
            PBT_CHECK(t, (obake::SeriesConstructible<T, K, C, G> == g), "SeriesConstructible of ", n);
            // With a symbol set, from what has a lower rank only.
            PBT_CHECK(t, (std::is_constructible_v<S, const T &, const obake::symbol_set &> == (c && R<T>::rank < R<S>::rank)),
                      "construction with symbols of ", n);
            PBT_CHECK(t, (!obake::is_series_constructible_v<const T &, int, C, G>), "no series of ", n);
            PBT_CHECK(t, (!obake::SeriesConstructible<T, K, inert, G>), "no series of ", n);
        } else {
            using C = typename R<T>::cf;
            PBT_CHECK(t, (obake::is_series_convertible_v<S, C> == c), "is_series_convertible of ", n);
            PBT_CHECK(t, (obake::SeriesConvertible<S, C> == c), "SeriesConvertible of ", n);
            PBT_CHECK(t, (!obake::SeriesConvertible<S &, C>), "SeriesConvertible to a reference of ", n);
        }
    });
}

namespace
{
template <typename A, typename B>
concept has_pow = requires(A &&a, B &&b)
{
    obake::pow(std::forward<A>(a), std::forward<B>(b));
};
template <typename A, typename B>
constexpr auto r_pow()
{
    if constexpr (has_pow<A, B>) {
        return ty<decltype(obake::pow(std::declval<A>(), std::declval<B>()))>{};
    } else {
        return ty<none>{};
    }
}
template <typename A, typename U>
constexpr auto exp_pow()
{
    if constexpr (R<A>::rank == 0) {
        return r_pow<const A &, const U &>();
    } else {
        using C = std::remove_cvref_t<typename decltype(exp_pow<typename R<A>::cf, U>())::type>;
        return ty<typename mk<typename R<A>::key, std::conditional_t<testable<U>, C, none>, typename R<A>::tag>::type>{};
    }
}
template <typename A>
concept has_neg = requires(A &&a)
{
    -std::forward<A>(a);
    +std::forward<A>(a);
};
} // namespace

PBT_SUB(powers, 40000, 200000,
        "series to the power of numbers, strings and series: exist when the coefficients have powers, with the type of the result "
        "by the coefficients; negation and identity; non-trivial: they exist")
{
    by_index(t.below(count(operands{})), operands{}, [&](auto xa) {
        using A = typename decltype(xa)::type;
        if constexpr (R<A>::rank != 0) {
            using exps = tl<int, unsigned, long long, double, Z, std::string, inert, void *>;
            by_index(t.below(count(exps{})), exps{}, [&](auto xu) {
                using U = typename decltype(xu)::type;
                using P = typename decltype(exp_pow<A, U>())::type;
                t.nontrivial(!std::is_same_v<P, none>);
                PBT_CHECK(t, SAME(r_pow, const A &, const U &, P), "power of ", tname<A>(), " to ", tname<U>());
                PBT_CHECK(t, SAME(r_pow, A &, U &&, P), "power of ", tname<A>(), " to ", tname<U>());
                PBT_CHECK(t, SAME(r_pow, A &&, U &, P), "power of ", tname<A>(), " to ", tname<U>());
            });
            PBT_CHECK(t, has_neg<A> && has_neg<const A &> && has_neg<A &>, "negation of ", tname<A>());
            PBT_CHECK(t, (std::is_same_v<decltype(-std::declval<const A &>()), A> && std::is_same_v<decltype(-std::declval<A>()), A>
                          && std::is_same_v<decltype(+std::declval<A &>()), A>),
                      "type of the negation of ", tname<A>());
        }
    });
}
#endif
