// U08: the type traits and concepts that decide what the library accepts.
#include <pbt.hpp>

#include <array>
#include <complex>
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <obake/type_traits.hpp>

#include "zint.hpp"

// Types with some operators; asymmetric in every way.
namespace u08_ns
{
struct full {
    full operator+(const full &) const;
    full operator-(const full &) const;
    full operator*(const full &) const;
    full operator/(const full &) const;
    full &operator+=(const full &);
    full &operator-=(const full &);
    full &operator*=(const full &);
    full &operator/=(const full &);
    full &operator++();
    full operator++(int);
    full &operator--();
    full operator--(int);
    bool operator==(const full &) const;
    bool operator<(const full &) const;
    bool operator>(const full &) const;
    bool operator<=(const full &) const;
    bool operator>=(const full &) const;
};
std::ostream &operator<<(std::ostream &, const full &);
struct left {
};
// Only on one side.
left operator+(const left &, const full &);
left operator-(const left &, const full &);
left operator*(const left &, const full &);
left operator/(const left &, const full &);
bool operator<(const left &, const full &);
bool operator>(const left &, const full &);
bool operator<=(const left &, const full &);
bool operator>=(const left &, const full &);
// A different result on each side.
struct sides {
};
sides operator+(const sides &, const full &);
full operator+(const full &, const sides &);
sides operator-(const sides &, const full &);
full operator-(const full &, const sides &);
sides operator*(const sides &, const full &);
full operator*(const full &, const sides &);
sides operator/(const sides &, const full &);
full operator/(const full &, const sides &);
// Comparisons that do not give a bool.
struct odd {
};
struct not_bool {
};
not_bool operator==(const odd &, const odd &);
bool operator!=(const odd &, const odd &);
not_bool operator<(const odd &, const odd &);
not_bool operator>(const odd &, const odd &);
not_bool operator<=(const odd &, const odd &);
not_bool operator>=(const odd &, const odd &);
void operator<<(std::ostream &, const odd &);
// Equality in one direction of operator!= only.
struct half_eq {
    bool operator==(const half_eq &) const;
    void operator!=(const half_eq &) const;
};
// Operators that need an lvalue, or an rvalue.
struct lref {
};
lref operator+(lref &, lref &);
lref operator*(lref &, lref &);
bool operator==(lref &, lref &);
lref &operator+=(lref &, lref &);
std::ostream &operator<<(std::ostream &, lref &);
// Operators whose results, or whose existence, depend on the value category of the operand.
struct vcat {
};
#define U08_VCAT(op)                                                                                                   \
    full operator op(const vcat &, int);                                                                               \
    sides operator op(vcat &&, int);                                                                                   \
    full operator op(int, const vcat &);                                                                               \
    sides operator op(int, vcat &&);                                                                                   \
    full operator op(const vcat &, const full &);                                                                      \
    full operator op(vcat &&, const full &);                                                                           \
    full operator op(const full &, const vcat &);                                                                      \
    sides operator op(const full &, vcat &&);                                                                          \
    left operator op(const vcat &, const vcat &);                                                                      \
    left operator op(vcat &&, vcat &&);                                                                                \
    full operator op(const vcat &, vcat &&);                                                                           \
    sides operator op(vcat &&, const vcat &);
U08_VCAT(+)
U08_VCAT(-)
U08_VCAT(*)
U08_VCAT(/)
#define U08_VCAT2(op)                                                                                                  \
    bool operator op(vcat &&, int);                                                                                    \
    bool operator op(int, vcat &&);                                                                                    \
    bool operator op(vcat &&, full &&);                                                                                \
    bool operator op(full &&, vcat &&);
U08_VCAT2(==)
U08_VCAT2(!=)
U08_VCAT2(<)
U08_VCAT2(>)
U08_VCAT2(<=)
U08_VCAT2(>=)
vcat &operator+=(vcat &, vcat &&);
vcat &operator-=(vcat &, vcat &&);
vcat &operator*=(vcat &, vcat &&);
vcat &operator/=(vcat &, vcat &&);
std::ostream &operator<<(std::ostream &, vcat &&);
struct move_only {
    move_only() = default;
    move_only(move_only &&) = default;
    move_only &operator=(move_only &&) = default;
};
struct no_default {
    explicit no_default(int);
};
struct no_assign {
    no_assign() = default;
    no_assign(const no_assign &) = default;
    no_assign &operator=(const no_assign &) = delete;
};
struct no_move_assign {
    no_move_assign() = default;
    no_move_assign(const no_move_assign &) = default;
    no_move_assign &operator=(const no_move_assign &) = default;
    no_move_assign &operator=(no_move_assign &&) = delete;
};
struct no_destroy {
    ~no_destroy() = delete;
};
struct no_swap {
};
void swap(no_swap &, no_swap &) = delete;
struct abstract {
    virtual void f() = 0;
};
struct pinned {
    pinned() = default;
    pinned(const pinned &) = delete;
};
struct copy_nonconst {
    copy_nonconst() = default;
    copy_nonconst(copy_nonconst &);
};
enum plain_enum { a_value };
enum class scoped_enum : unsigned char { b_value };
} // namespace u08_ns

namespace
{
using namespace u08_ns;
using i128 = __int128_t;
using u128 = __uint128_t;

template <typename T>
struct ty {
    using type = T;
};
template <typename... Ts>
struct tl {
};

using types = tl<void, const void, bool, char, const char, signed char, unsigned char, short, unsigned short, int, const int,
                 volatile int, int &, const int &, int &&, const int &&, unsigned, long, unsigned long, long long,
                 unsigned long long, wchar_t, char16_t, char32_t, char8_t, i128, const i128, volatile u128, i128 &, u128, float,
                 const double, double, double &, long double, std::complex<double>, std::nullptr_t, int *, const int *,
                 int *const, void *, char *, const char *, char *const, const volatile char *, char **, char *&, char[4],
                 const char[4], char[], char (&)[4], unsigned char[3], int[3], std::string, const std::string, std::string &,
                 std::string &&, std::string_view, const std::string_view, std::wstring, full, full &, const full &, full &&,
                 left, sides, vcat, vcat &, const vcat &, odd, half_eq, lref, lref &, const lref &, move_only, no_default, no_assign, no_move_assign,
                 no_destroy, no_swap, abstract, pinned, copy_nonconst, plain_enum, scoped_enum, const scoped_enum, void(),
                 void (*)(), std::unique_ptr<int>, std::mutex, std::vector<int>, std::vector<move_only>>;

// The oracles: the definitions, written again with requires expressions.
#define BIN2(nm, op)                                                                                                   \
    template <typename T, typename U>                                                                                  \
    concept o_##nm = requires                                                                                          \
    {                                                                                                                  \
        std::declval<T>() op std::declval<U>();                                                                        \
        std::declval<U>() op std::declval<T>();                                                                        \
        requires std::is_same_v<decltype(std::declval<T>() op std::declval<U>()),                                      \
                                decltype(std::declval<U>() op std::declval<T>())>;                                     \
    };                                                                                                                 \
    template <typename T, typename U>                                                                                  \
    concept o_in_place_##nm = requires                                                                                 \
    {                                                                                                                  \
        std::declval<T>() op## = std::declval<U>();                                                                    \
    };
template <typename T, typename U>
concept o_add = requires
{
    std::declval<T>() + std::declval<U>();
    std::declval<U>() + std::declval<T>();
    requires std::is_same_v<decltype(std::declval<T>() + std::declval<U>()), decltype(std::declval<U>() + std::declval<T>())>;
};
template <typename T, typename U>
concept o_sub = requires
{
    std::declval<T>() - std::declval<U>();
    std::declval<U>() - std::declval<T>();
    requires std::is_same_v<decltype(std::declval<T>() - std::declval<U>()), decltype(std::declval<U>() - std::declval<T>())>;
};
template <typename T, typename U>
concept o_mul = requires
{
    std::declval<T>() * std::declval<U>();
    std::declval<U>() * std::declval<T>();
    requires std::is_same_v<decltype(std::declval<T>() * std::declval<U>()), decltype(std::declval<U>() * std::declval<T>())>;
};
template <typename T, typename U>
concept o_div = requires
{
    std::declval<T>() / std::declval<U>();
    std::declval<U>() / std::declval<T>();
    requires std::is_same_v<decltype(std::declval<T>() / std::declval<U>()), decltype(std::declval<U>() / std::declval<T>())>;
};
template <typename T, typename U>
concept o_iadd = requires { std::declval<T>() += std::declval<U>(); };
template <typename T, typename U>
concept o_isub = requires { std::declval<T>() -= std::declval<U>(); };
template <typename T, typename U>
concept o_imul = requires { std::declval<T>() *= std::declval<U>(); };
template <typename T, typename U>
concept o_idiv = requires { std::declval<T>() /= std::declval<U>(); };
template <typename X>
concept boolish = std::is_convertible_v<X, bool>;
template <typename T, typename U>
concept o_eq = requires
{
    { std::declval<T>() == std::declval<U>() } -> boolish;
    { std::declval<U>() == std::declval<T>() } -> boolish;
    { std::declval<T>() != std::declval<U>() } -> boolish;
    { std::declval<U>() != std::declval<T>() } -> boolish;
};
template <typename T, typename U>
concept o_lt = requires
{
    { std::declval<T>() < std::declval<U>() } -> boolish;
    { std::declval<U>() < std::declval<T>() } -> boolish;
};
template <typename T, typename U>
concept o_gt = requires
{
    { std::declval<T>() > std::declval<U>() } -> boolish;
    { std::declval<U>() > std::declval<T>() } -> boolish;
};
template <typename T, typename U>
concept o_le = requires
{
    { std::declval<T>() <= std::declval<U>() } -> boolish;
    { std::declval<U>() <= std::declval<T>() } -> boolish;
};
template <typename T, typename U>
concept o_ge = requires
{
    { std::declval<T>() >= std::declval<U>() } -> boolish;
    { std::declval<U>() >= std::declval<T>() } -> boolish;
};

template <typename T, typename... L>
constexpr bool one_of = (std::is_same_v<T, L> || ...);
template <typename T>
using bare = std::remove_cv_t<T>;
template <typename T>
constexpr bool o_integral = one_of<bare<T>, bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long,
                                   unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t, i128,
                                   u128>;
template <typename T>
constexpr bool o_fp = one_of<bare<T>, float, double, long double>;
template <typename T>
constexpr bool o_signed
    = one_of<bare<T>, char, signed char, short, int, long, long long, wchar_t, i128, float, double, long double>;
template <typename T>
constexpr bool o_string_like
    = one_of<bare<T>, std::string, std::string_view>
      || one_of<bare<T>, char *, const char *, volatile char *, const volatile char *>
      || (std::is_array_v<T> && one_of<std::remove_cv_t<std::remove_extent_t<T>>, char>);
template <typename T>
concept o_stream = requires(std::ostream &os)
{
    {
        os << std::declval<T>()
        } -> std::same_as<std::ostream &>;
};
template <typename T>
constexpr bool o_returnable = std::is_void_v<T> || std::is_constructible_v<T, std::add_lvalue_reference_t<T>>
                              || std::is_constructible_v<T, std::add_rvalue_reference_t<T>>;
template <typename T>
constexpr bool o_semi = std::is_default_constructible_v<T> &&std::is_copy_constructible_v<T> &&std::is_move_constructible_v<T>
    &&std::is_copy_assignable_v<T> &&std::is_move_assignable_v<T> &&std::is_swappable_v<T> &&std::is_destructible_v<T>;

struct row {
    const char *what;
    bool got, want;
};

template <typename T>
std::string tname()
{
    const std::string p = __PRETTY_FUNCTION__;
    const auto b = p.find("T = ");
    const auto e = p.find_first_of(";", b);
    return p.substr(b + 4, (e == std::string::npos ? p.size() - 1 : e) - b - 4);
}

#define ROW(x, y) row{#x, bool(x), bool(y)}

template <typename T>
std::vector<row> unary_rows()
{
    return {ROW(obake::is_integral_v<T>, o_integral<T>), ROW(obake::integral<T>, o_integral<T>),
            ROW(obake::FloatingPoint<T>, o_fp<T>), ROW(obake::is_arithmetic_v<T>, (o_integral<T> || o_fp<T>)),
            ROW(obake::Arithmetic<T>, (o_integral<T> || o_fp<T>)), ROW(obake::is_signed_v<T>, o_signed<T>),
            ROW(obake::Signed<T>, o_signed<T>), ROW(obake::is_semi_regular_v<T>, o_semi<T>),
            ROW(obake::SemiRegular<T>, o_semi<T>), ROW(obake::is_returnable_v<T>, o_returnable<T>),
            ROW(obake::Returnable<T>, o_returnable<T>), ROW(obake::is_string_like_v<T>, o_string_like<T>),
            ROW(obake::string_like<T>, o_string_like<T>), ROW(obake::is_stream_insertable_v<T>, o_stream<T>),
            ROW(obake::StreamInsertable<T>, o_stream<T>),
            ROW(obake::is_pre_incrementable_v<T>, (requires { ++std::declval<T>(); })),
            ROW(obake::PreIncrementable<T>, (requires { ++std::declval<T>(); })),
            ROW(obake::is_post_incrementable_v<T>, (requires { std::declval<T>()++; })),
            ROW(obake::PostIncrementable<T>, (requires { std::declval<T>()++; })),
            ROW(obake::is_pre_decrementable_v<T>, (requires { --std::declval<T>(); })),
            ROW(obake::PreDecrementable<T>, (requires { --std::declval<T>(); })),
            ROW(obake::is_post_decrementable_v<T>, (requires { std::declval<T>()--; })),
            ROW(obake::PostDecrementable<T>, (requires { std::declval<T>()--; })),
            ROW(obake::is_mutable_rvalue_reference_v<T>,
                (std::is_rvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>)),
            ROW(obake::MutableRvalueReference<T>,
                (std::is_rvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>)),
            ROW((std::is_same_v<obake::remove_cvref_t<T>, std::remove_cvref_t<T>>), true)};
}

template <typename T, typename U>
std::vector<row> binary_rows()
{
    return {ROW((obake::is_addable_v<T, U>), (o_add<T, U>)), ROW((obake::is_subtractable_v<T, U>), (o_sub<T, U>)),
            ROW((obake::is_multipliable_v<T, U>), (o_mul<T, U>)), ROW((obake::is_divisible_v<T, U>), (o_div<T, U>)),
            ROW((obake::is_in_place_addable_v<T, U>), (o_iadd<T, U>)),
            ROW((obake::is_in_place_subtractable_v<T, U>), (o_isub<T, U>)),
            ROW((obake::is_in_place_multipliable_v<T, U>), (o_imul<T, U>)),
            ROW((obake::is_in_place_divisible_v<T, U>), (o_idiv<T, U>)),
            ROW((obake::is_equality_comparable_v<T, U>), (o_eq<T, U>)),
            ROW((obake::is_less_than_comparable_v<T, U>), (o_lt<T, U>)),
            ROW((obake::is_greater_than_comparable_v<T, U>), (o_gt<T, U>)),
            ROW((obake::is_lte_comparable_v<T, U>), (o_le<T, U>)), ROW((obake::is_gte_comparable_v<T, U>), (o_ge<T, U>)),
            ROW((obake::is_same_cvr_v<T, U>), (std::is_same_v<std::remove_cvref_t<T>, std::remove_cvref_t<U>>)),
            ROW((obake::SameCvr<T, U>), (std::is_same_v<std::remove_cvref_t<T>, std::remove_cvref_t<U>>)),
            ROW((obake::Constructible<T, U>), (std::is_constructible_v<T, U>)),
            // The concepts name the same conditions.
            ROW((obake::EqualityComparable<T, U>), (o_eq<T, U>)), ROW((obake::LessThanComparable<T, U>), (o_lt<T, U>)),
            ROW((obake::GreaterThanComparable<T, U>), (o_gt<T, U>)), ROW((obake::LTEComparable<T, U>), (o_le<T, U>)),
            ROW((obake::GTEComparable<T, U>), (o_ge<T, U>))};
}

// The concepts with a parameter list are only well formed for object and reference types.
template <typename T, typename U>
std::vector<row> concept_rows()
{
    return {ROW((obake::Addable<T, U>), (o_add<T, U>)),
            ROW((obake::Subtractable<T, U>), (o_sub<T, U>)),
            ROW((obake::Multipliable<T, U>), (o_mul<T, U>)),
            ROW((obake::Divisible<T, U>), (o_div<T, U>)),
            ROW((obake::InPlaceAddable<T, U>), (o_iadd<T, U>)),
            ROW((obake::InPlaceSubtractable<T, U>), (o_isub<T, U>)),
            ROW((obake::InPlaceMultipliable<T, U>), (o_imul<T, U>)),
            ROW((obake::InPlaceDivisible<T, U>), (o_idiv<T, U>))};
}

using pair_types = tl<void, bool, char, short, int, const int, int &, const int &, int &&, unsigned, long long, i128, u128,
                      float, double &, std::complex<double>, int *, const char *, char[4], std::nullptr_t, std::string,
                      const std::string &, std::string &, full, full &, const full &, left, const left &, sides, sides &, odd,
                      half_eq, lref, lref &, const lref &, move_only, scoped_enum, std::unique_ptr<int>, std::vector<int>>;

template <typename... Ts, typename F>
void by_index(std::uint64_t k, tl<Ts...>, F &&f)
{
    std::uint64_t i = 0;
    ((i++ == k ? (f(ty<Ts>{}), 0) : 0), ...);
}
template <typename... Ts>
constexpr std::size_t count(tl<Ts...>)
{
    return sizeof...(Ts);
}

void check(pbt::T &t, const std::vector<row> &rows, const std::string &of)
{
    for (const auto &r : rows) PBT_CHECK(t, r.got == r.want, r.what, " for ", of, " is ", r.got);
}
bool any(const std::vector<row> &rows)
{
    for (const auto &r : rows) {
        if (r.want) return true;
    }
    return false;
}

} // namespace

#if VARIANT == 1
PBT_SUB(single, 20000, 100000,
        "90 types (all the numbers, cv-qualified and references, strings, types that lack one operation) through all the traits "
        "and concepts of one type; non-trivial: at least one holds")
{
    by_index(t.below(count(types{})), types{}, [&](auto a) {
        using T = typename decltype(a)::type;
        const auto rows = unary_rows<T>();
        t.nontrivial(any(rows));
        check(t, rows, tname<T>());
    });
}

PBT_SUB(unsigned_counterparts, 100000, 1000000,
        "the unsigned counterpart of all the integral and enumeration types: same size, unsigned, same qualifiers, and values "
        "survive the round trip; detection idiom: detected types are what was asked; non-trivial: negative value")
{
    zi::list<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long,
             unsigned long long, i128, u128>::pick(t, [&](auto a) {
        using I = typename decltype(a)::type;
        using U = obake::make_unsigned_t<I>;
        const I x = zi::gen<I>(t);
        t.nontrivial(x < I(0));
        const bool types_ok = sizeof(U) == sizeof(I) && obake::is_integral_v<U> && !obake::is_signed_v<U>
                              && std::is_same_v<obake::make_unsigned_t<const I>, const U>
                              && std::is_same_v<obake::make_unsigned_t<volatile I>, volatile U>
                              && std::is_same_v<obake::make_unsigned_t<const volatile I>, const volatile U>
                              && std::is_same_v<obake::make_unsigned_t<U>, U>;
        PBT_CHECK(t, types_ok, tname<I>());
        PBT_CHECK(t, static_cast<I>(static_cast<U>(x)) == x);
        mpz_class m = zi::zmax<U>() + 1, w = zi::Z(x);
        mpz_fdiv_r(w.get_mpz_t(), w.get_mpz_t(), m.get_mpz_t());
        PBT_CHECK(t, zi::Z(static_cast<U>(x)) == w);
    });
    const bool more[] = {std::is_same_v<obake::make_unsigned_t<scoped_enum>, unsigned char>,
                         obake::is_detected_v<std::add_pointer_t, int>,
                         std::is_same_v<obake::detected_t<std::add_pointer_t, int>, int *>,
                         std::is_same_v<obake::detected_t<std::make_unsigned_t, int>, unsigned>,
                         std::is_same_v<obake::is_detected<std::add_pointer_t, int>, std::true_type>};
    for (bool b : more) PBT_CHECK(t, b);
}
#elif VARIANT == 4
// Pairs of types with a pseudo-random choice of the operators between them, in each direction, and of their results.
namespace u08_gen
{
template <unsigned M>
struct gx {
};
template <unsigned M>
struct gy {
};
constexpr unsigned mix(unsigned m, unsigned k)
{
    std::uint64_t z = (std::uint64_t(m) * 64u + k + 1u) * 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return unsigned(z >> 33);
}
struct as_bool {
    operator bool() const;
};
struct opaque {
};
template <unsigned M, unsigned K>
using res = std::conditional_t<mix(M, K + 32u) % 8u == 0u, void,
                               std::conditional_t<mix(M, K + 32u) % 8u == 1u, opaque,
                                                  std::conditional_t<mix(M, K + 32u) % 8u <= 3u, as_bool, bool>>>;
#define GEN(op, k)                                                                                                     \
    template <unsigned M>                                                                                              \
        requires(mix(M, k) % 8u != 0u)                                                                                 \
    res<M, k> operator op(const gx<M> &, const gy<M> &);                                                               \
    template <unsigned M>                                                                                              \
        requires(mix(M, k + 1u) % 8u != 0u)                                                                            \
    res<M, k + 1u> operator op(const gy<M> &, const gx<M> &);
GEN(+, 0u)
GEN(-, 2u)
GEN(*, 4u)
GEN(/, 6u)
GEN(==, 8u)
GEN(!=, 10u)
GEN(<, 12u)
GEN(>, 14u)
GEN(<=, 16u)
GEN(>=, 18u)
GEN(+=, 20u)
GEN(-=, 22u)
GEN(*=, 24u)
GEN(/=, 26u)
template <unsigned... M>
auto families(std::integer_sequence<unsigned, M...>) -> tl<std::pair<gx<M>, gy<M>>...>;
} // namespace u08_gen

PBT_SUB(generated, 60000, 200000,
        "200 pairs of types with a pseudo-random choice of the 28 operators between them (each direction apart) and of their "
        "result types, through all the traits and concepts of two types; non-trivial: some hold and some do not")
{
    using all = decltype(u08_gen::families(std::make_integer_sequence<unsigned, 200>{}));
    by_index(t.below(count(all{})), all{}, [&](auto a) {
        using T = typename decltype(a)::type::first_type;
        using U = typename decltype(a)::type::second_type;
        auto rows = t.below(2) ? binary_rows<T, U>() : binary_rows<U, T>();
        const auto more = t.below(2) ? concept_rows<T, U>() : concept_rows<U, T>();
        rows.insert(rows.end(), more.begin(), more.end());
        bool none = false;
        for (const auto &r : rows) none = none || !r.want;
        t.nontrivial(none && any(rows));
        check(t, rows, tname<T>() + " and " + tname<U>());
    });
}
#elif VARIANT == 5
// The same, and both the choice of the operators and the result types depend on the value categories of the operands.
namespace u08_cat
{
template <unsigned M>
struct gx {
    static constexpr unsigned m = M;
    static constexpr int side = 1;
};
template <unsigned M>
struct gy {
    static constexpr unsigned m = M;
    static constexpr int side = 2;
};
constexpr unsigned mix(unsigned m, unsigned k)
{
    std::uint64_t z = (std::uint64_t(m) * 1024u + k + 1u) * 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return unsigned(z >> 33);
}
struct as_bool {
    operator bool() const;
};
struct as_bool_mutable {
    operator bool();
};
struct as_bool_explicit {
    explicit operator bool() const;
};
template <unsigned R>
using res_of = std::conditional_t<R == 0u, as_bool_explicit, std::conditional_t<R == 1u, as_bool_mutable,
                                  std::conditional_t<R == 2u, as_bool &, std::conditional_t<R == 3u, as_bool, bool>>>>;
template <typename T>
constexpr unsigned cat = (std::is_lvalue_reference_v<T> ? 0u : 2u) + (std::is_const_v<std::remove_reference_t<T>> ? 1u : 0u);
template <typename X, typename Y>
concept sides = requires
{
    requires std::remove_cvref_t<X>::m == std::remove_cvref_t<Y>::m;
    requires std::remove_cvref_t<X>::side + std::remove_cvref_t<Y>::side == 3;
};
template <typename X, typename Y, unsigned K>
constexpr unsigned key = (K * 2u + unsigned(std::remove_cvref_t<X>::side) - 1u) * 16u + cat<X> * 4u + cat<Y>;
template <typename X, typename Y, unsigned K>
constexpr unsigned draw = mix(std::remove_cvref_t<X>::m, key<X, Y, K>);
template <typename X, typename Y, unsigned K>
using res = res_of<(draw<X, Y, K> / 8u) % 12u>;
#define GEN(op, k)                                                                                                     \
    template <typename X, typename Y>                                                                                  \
        requires(sides<X, Y> && draw<X, Y, k> % 8u != 0u)                                                              \
    res<X, Y, k> operator op(X &&, Y &&);
GEN(+, 0u)
GEN(-, 1u)
GEN(*, 2u)
GEN(/, 3u)
GEN(==, 4u)
GEN(!=, 5u)
GEN(<, 6u)
GEN(>, 7u)
GEN(<=, 8u)
GEN(>=, 9u)
GEN(+=, 10u)
GEN(-=, 11u)
GEN(*=, 12u)
GEN(/=, 13u)
template <typename T, unsigned C>
using with = std::conditional_t<C == 0u, T &,
                                std::conditional_t<C == 1u, const T &, std::conditional_t<C == 2u, T, const T &&>>>;
template <unsigned M>
using family = std::pair<with<gx<M>, mix(M, 1000u) % 4u>, with<gy<M>, mix(M, 1001u) % 4u>>;
template <unsigned... M>
auto families(std::integer_sequence<unsigned, M...>) -> tl<family<M>...>;
} // namespace u08_cat

PBT_SUB(by_category, 60000, 200000,
        "300 pairs of types whose operators exist, and have result types, depending pseudo-randomly on the value category and "
        "constness of both operands, through all the traits and concepts of two types; non-trivial: some hold and some do not")
{
    using all = decltype(u08_cat::families(std::make_integer_sequence<unsigned, 300>{}));
    by_index(t.below(count(all{})), all{}, [&](auto a) {
        using T = typename decltype(a)::type::first_type;
        using U = typename decltype(a)::type::second_type;
        auto rows = binary_rows<T, U>();
        const auto more = concept_rows<T, U>();
        rows.insert(rows.end(), more.begin(), more.end());
        bool none = false;
        for (const auto &r : rows) none = none || !r.want;
        t.nontrivial(none && any(rows));
        check(t, rows, tname<T>() + " and " + tname<U>());
    });
}

// One operand: the special members, the increments and the stream operator a type has.
namespace u08_cat
{
template <unsigned M>
struct sm {
    sm() requires(M % 8u != 0u);
    sm(const sm &) requires(mix(M, 1u) % 3u != 0u);
    sm(sm &) requires(mix(M, 2u) % 3u == 0u);
    sm(sm &&) requires(mix(M, 3u) % 3u != 0u);
    sm(const sm &&) requires(mix(M, 4u) % 3u == 0u);
    sm &operator=(const sm &) requires(mix(M, 5u) % 4u != 0u);
    sm &operator=(sm &&) requires(mix(M, 6u) % 4u != 0u);
    ~sm() requires(M % 16u != 1u);
    ~sm() requires(M % 16u == 1u) = delete;
};
template <unsigned M>
    requires(M % 16u == 2u)
void swap(sm<M> &, sm<M> &) = delete;
template <typename X>
struct sm_of;
template <unsigned M>
struct sm_of<sm<M>> {
    static constexpr unsigned value = M;
};
template <typename X, unsigned K>
concept has = requires
{
    requires mix(sm_of<std::remove_cvref_t<X>>::value, 100u + K * 4u + cat<X>) % 2u == 0u;
};
template <typename X>
    requires has<X, 0u>
void operator++(X &&);
template <typename X>
    requires has<X, 1u>
void operator++(X &&, int);
template <typename X>
    requires has<X, 2u>
void operator--(X &&);
template <typename X>
    requires has<X, 3u>
void operator--(X &&, int);
template <typename X>
    requires has<X, 4u>
std::conditional_t<has<X, 5u>, std::ostream &, std::conditional_t<has<X, 6u>, const std::ostream &, void>>
operator<<(std::ostream &, X &&);
template <unsigned... M>
auto singles(std::integer_sequence<unsigned, M...>)
    -> tl<std::conditional_t<M % 5u == 4u, sm<M / 5u>, with<sm<M / 5u>, M % 5u>>...>;
} // namespace u08_cat

PBT_SUB(one_by_category, 60000, 200000,
        "60 types with pseudo-random special members, as values and as references, whose increments and stream operator depend "
        "on the value category and constness, through all the traits and concepts of one type; non-trivial: some hold and some "
        "do not")
{
    using all = decltype(u08_cat::singles(std::make_integer_sequence<unsigned, 300>{}));
    by_index(t.below(count(all{})), all{}, [&](auto a) {
        using T = typename decltype(a)::type;
        const auto rows = unary_rows<T>();
        bool none = false;
        for (const auto &r : rows) none = none || !r.want;
        t.nontrivial(none && any(rows));
        check(t, rows, tname<T>());
    });
}
#else
PBT_SUB(pairs, 60000, 200000,
        "1521 ordered pairs of types through all the traits and concepts of two types; non-trivial: at least one holds")
{
    by_index(t.below(count(pair_types{})), pair_types{}, [&](auto a) {
        using T = typename decltype(a)::type;
#if VARIANT == 2
        by_index(t.below(count(pair_types{})), pair_types{}, [&](auto b) {
            using U = typename decltype(b)::type;
            const auto rows = binary_rows<T, U>();
            t.nontrivial(any(rows));
            check(t, rows, tname<T>() + " and " + tname<U>());
        });
#else
        if constexpr (!std::is_void_v<T>) {
            by_index(t.below(count(pair_types{})), pair_types{}, [&](auto b) {
                using U = typename decltype(b)::type;
                if constexpr (!std::is_void_v<U>) {
                    const auto rows = concept_rows<T, U>();
                    t.nontrivial(any(rows));
                    check(t, rows, tname<T>() + " and " + tname<U>());
                }
            });
        }
#endif
    });
}
#endif
