// U11: which functions of series exist (derivatives, integrals, substitution, evaluation, degrees, truncation, trimming,
// filtering, sizes, output), for which coefficients and keys, and with which result.
#include <pbt.hpp>

#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

#include "ukey.hpp"

namespace
{
using Z = mppp::integer<1>;
using Q = mppp::rational<1>;
using pk = obake::polynomials::packed_monomial<std::int32_t>;
using pl = obake::polynomials::packed_monomial<std::int64_t>;
using pu = obake::polynomials::packed_monomial<std::uint64_t>;
using dk = obake::polynomials::d_packed_monomial<std::int32_t, 8>;
using obake::p_series;
using obake::polynomial;
using obake::series;
using obake::symbol_map;
using obake::symbol_set;
using uk::ukey;
using uk::utag;

template <typename T>
struct ty {
    using type = T;
};
template <typename... Ts>
struct tl {
};
template <typename... Ts>
constexpr std::size_t count(tl<Ts...>)
{
    return sizeof...(Ts);
}
template <typename... Ts, typename F>
void by_index(std::uint64_t k, tl<Ts...>, F &&f)
{
    std::uint64_t i = 0;
    ((i++ == k ? (f(ty<Ts>{}), 0) : 0), ...);
}
template <typename T>
std::string tname()
{
    const std::string s = __PRETTY_FUNCTION__;
    const auto b = s.find("T = ");
    return s.substr(b + 4, s.find_first_of(";]", b) - b - 4);
}
// What a function returns, or none.
struct none {
};
#define FUN(name, ...)                                                                                                           \
    template <typename A, typename U>                                                                                            \
    concept has_##name = requires(A &&a, const U &u, const symbol_map<U> &sm, const symbol_set &ss)                              \
    {                                                                                                                            \
        __VA_ARGS__;                                                                                                             \
    };                                                                                                                           \
    struct f_##name {                                                                                                            \
        template <typename A, typename U>                                                                                        \
        static constexpr auto get()                                                                                              \
        {                                                                                                                        \
            if constexpr (has_##name<A, U>) {                                                                                    \
                return [](A &&a, const U &u, const symbol_map<U> &sm, const symbol_set &ss) {                                    \
                    (void)a;                                                                                                     \
                    (void)u;                                                                                                     \
                    (void)sm;                                                                                                    \
                    (void)ss;                                                                                                    \
                    return ty<decltype(__VA_ARGS__)>{};                                                                          \
                };                                                                                                               \
            } else {                                                                                                             \
                return [](A &&, const U &, const symbol_map<U> &, const symbol_set &) { return ty<none>{}; };                    \
            }                                                                                                                    \
        }                                                                                                                        \
        template <typename A, typename U>                                                                                        \
        using type = typename decltype(get<A, U>()(std::declval<A &&>(), std::declval<const U &>(),                              \
                                                   std::declval<const symbol_map<U> &>(), std::declval<const symbol_set &>()))::type; \
    };
FUN(diff, obake::diff(std::forward<A>(a), std::string{}))
FUN(diff_num, obake::diff(std::forward<A>(a), 1))
FUN(integrate, obake::integrate(std::forward<A>(a), std::string{}))
FUN(integrate_num, obake::integrate(std::forward<A>(a), 1))
FUN(subs, obake::subs(std::forward<A>(a), sm))
FUN(subs_direct, obake::subs(std::forward<A>(a), u))
FUN(evaluate, obake::evaluate(std::forward<A>(a), sm))
FUN(evaluate_direct, obake::evaluate(std::forward<A>(a), u))
FUN(degree, obake::degree(std::forward<A>(a)))
FUN(p_degree, obake::p_degree(std::forward<A>(a), ss))
FUN(p_degree_num, obake::p_degree(std::forward<A>(a), 1))
FUN(trim, obake::trim(std::forward<A>(a)))
FUN(tdeg, obake::truncate_degree(std::forward<A>(a), u))
FUN(tpdeg, obake::truncate_p_degree(std::forward<A>(a), u, ss))
FUN(tmul, obake::polynomials::truncated_mul(std::forward<A>(a), std::forward<A>(a), u))
FUN(tpmul, obake::polynomials::truncated_mul(std::forward<A>(a), std::forward<A>(a), u, ss))
FUN(mul, std::forward<A>(a) * std::forward<A>(a))
FUN(add, std::forward<A>(a) + std::forward<A>(a))
FUN(pow, obake::pow(std::forward<A>(a), u))
FUN(bsize, obake::byte_size(std::forward<A>(a)))
FUN(tex, obake::tex_stream_insert(std::declval<std::ostream &>(), std::forward<A>(a)))
FUN(stream, std::declval<std::ostream &>() << std::forward<A>(a))
FUN(add_symbols, obake::add_symbols(std::forward<A>(a), ss))
FUN(filter, obake::filter(std::forward<A>(a), u))
FUN(filtered, obake::filtered(std::forward<A>(a), u))
#define IS(f, A, U, ...) (std::is_same_v<f_##f::type<A, U>, __VA_ARGS__>)
// By constant, by value and by reference.
#define ALL(f, A, U, ...) (IS(f, const A &, U, __VA_ARGS__) && IS(f, A, U, __VA_ARGS__) && IS(f, A &, U, __VA_ARGS__))
struct inert {
};
template <bool B, typename T>
using iff = std::conditional_t<B, T, none>;
} // namespace

#if VARIANT == 1 || VARIANT == 2
namespace
{
// The parts of a series, written down independently of the library's queries.
template <typename T>
struct R {
    static constexpr std::size_t rank = 0;
    using base = T;
};
template <typename K, typename C, typename Tag>
struct R<series<K, C, Tag>> {
    static constexpr std::size_t rank = R<C>::rank + 1;
    static constexpr bool poly = std::is_same_v<Tag, obake::polynomials::tag>;
    static constexpr bool ps = !poly && !std::is_same_v<Tag, utag>;
    static constexpr bool mono = !std::is_same_v<K, ukey>;
    using key = K;
    using cf = C;
    using tag = Tag;
    using base = typename R<C>::base;
};
using series_types
    = tl<polynomial<pk, Z>, polynomial<pk, int>, polynomial<pl, Q>, polynomial<dk, double>, polynomial<pu, Z>,
         polynomial<pk, polynomial<pk, Q>>, polynomial<dk, polynomial<pl, double>>, polynomial<pk, p_series<pk, Q>>, p_series<pk, Q>,
         p_series<pl, double>, p_series<dk, Z>, polynomial<ukey, Z>, polynomial<pk, polynomial<ukey, Z>>, series<ukey, Q, utag>,
         series<pk, Q, utag>>;
using subs_types = tl<int, Z, Q, double, std::string, inert, void *, long double>;
// Numbers in the order in which they absorb each other.
template <typename T>
constexpr int height = std::is_same_v<T, int> ? 1 : std::is_same_v<T, Z> ? 2 : std::is_same_v<T, Q> ? 3 : std::is_same_v<T, double> ? 4 : std::is_same_v<T, long double> ? 5 : 0;
template <typename A, typename B>
using higher = std::conditional_t<(height<A> >= height<B>), A, B>;
// All keys are monomials, and all tags those of polynomials or power series.
template <typename T>
constexpr bool all_poly()
{
    if constexpr (R<T>::rank == 0) {
        return true;
    } else {
        return R<T>::mono && (R<T>::poly || R<T>::ps) && all_poly<typename R<T>::cf>();
    }
}
// The innermost coefficient replaced.
template <typename T, typename U>
struct with_base {
    using type = higher<T, U>;
};
template <typename K, typename C, typename Tag, typename U>
struct with_base<series<K, C, Tag>, U> {
    using type = series<K, typename with_base<C, U>::type, Tag>;
};
// Numbers with powers to an exponent; the others leave what they are substituted into as it is.
template <typename U>
constexpr bool powers = height<U> > 1;
template <typename T, typename U>
constexpr auto subs_of()
{
    if constexpr (R<T>::rank == 0) {
        return ty<T>{};
    } else if constexpr (all_poly<T>() && powers<U>) {
        // The product with the substituted coefficient needs keys that can be multiplied.
        return ty<typename with_base<T, U>::type>{};
    } else {
        return ty<T>{};
    }
}
template <typename T, typename U>
constexpr auto value_of()
{
    if constexpr (R<T>::rank == 0) {
        return ty<T>{};
    } else if constexpr (R<T>::mono && powers<U>) {
        return ty<typename with_base<typename decltype(value_of<typename R<T>::cf, U>())::type, U>::type>{};
    } else {
        return ty<T>{};
    }
}
// Any of the parts has a degree.
template <typename T>
constexpr bool with_degree()
{
    if constexpr (R<T>::rank == 0) {
        return false;
    } else {
        return R<T>::mono || with_degree<typename R<T>::cf>();
    }
}
template <typename K>
struct expo;
template <typename T>
struct expo<obake::polynomials::packed_monomial<T>> {
    using type = T;
};
template <typename T, unsigned N>
struct expo<obake::polynomials::d_packed_monomial<T, N>> {
    using type = T;
};
template <typename T>
constexpr auto degree_of()
{
    if constexpr (!with_degree<T>()) {
        return ty<none>{};
    } else if constexpr (!R<T>::mono) {
        return degree_of<typename R<T>::cf>();
    } else {
        using E = typename expo<typename R<T>::key>::type;
        if constexpr (with_degree<typename R<T>::cf>()) {
            return ty<std::common_type_t<E, typename decltype(degree_of<typename R<T>::cf>())::type>>{};
        } else {
            return ty<E>{};
        }
    }
}
} // namespace
#endif

#if VARIANT == 1
PBT_SUB(calculus, 40000, 200000,
        "15 series types, 8 types of values, by value, constant and reference: derivatives and integrals exist for monomials and keep "
        "the type; substitution and evaluation of numbers raise the coefficient to the higher of the two types, those of other values change nothing; "
        "non-trivial: the function exists")
{
    by_index(t.below(count(series_types{})), series_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        const auto n = tname<T>();
        constexpr bool ok = all_poly<T>();
        PBT_CHECK(t, ALL(diff, T, int, iff<ok, T>), "derivative of ", n);
        // The coefficients of an integral need not depend on the variable; only its key has to be integrable.
        PBT_CHECK(t, ALL(integrate, T, int, iff<ok, T>), "integral of ", n);
        PBT_CHECK(t, ALL(diff_num, T, int, none), "derivative by a number of ", n);
        PBT_CHECK(t, ALL(integrate_num, T, int, none), "integral by a number of ", n);
        PBT_CHECK(t, (obake::is_differentiable_v<T> == ok && obake::is_differentiable_v<const T &> == ok
                      && obake::is_integrable_v<T> == ok && obake::is_integrable_v<const T &> == ok && obake::Differentiable<T> == ok
                      && obake::Integrable<T> == ok),
                  "queries for ", n);
        by_index(t.below(count(subs_types{})), subs_types{}, [&](auto y) {
            using U = typename decltype(y)::type;
            using B = typename R<T>::base;
            const auto m = tname<U>() + " in " + n;
            // Products of rationals and long doubles and the like are left to the numbers' own libraries.
            if constexpr (!std::is_same_v<U, long double> || std::is_same_v<B, double> || std::is_same_v<B, int>) {
                using S = typename decltype(subs_of<T, U>())::type;
                using E = typename decltype(value_of<T, U>())::type;
                t.nontrivial(!std::is_same_v<E, T>);
                PBT_CHECK(t, ALL(subs, T, U, S), "substitution of ", m);
                PBT_CHECK(t, ALL(evaluate, T, U, E), "evaluation of ", m);
                PBT_CHECK(t, (obake::is_substitutable_v<T, U> && obake::is_substitutable_v<const T &, U>
                              && obake::is_evaluable_v<T, U> && obake::is_evaluable_v<const T &, U>),
                          "queries for ", m);
            }
            PBT_CHECK(t, ALL(subs_direct, T, U, none), "substitution without a map of ", m);
            PBT_CHECK(t, ALL(evaluate_direct, T, U, none), "evaluation without a map of ", m);
        });
    });
}

// The value which a function returns for an operand known by a constant, a value or a reference is the same.
PBT_SUB(numbers, 20000, 100000,
        "4 types of numbers and 3 types which are not: the same functions on coefficients of rank 0; non-trivial: a number")
{
    using number_types = tl<int, Z, Q, double, std::string, inert, void *>;
    by_index(t.below(count(number_types{})), number_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        const auto n = tname<T>();
        constexpr bool num = height<T> != 0;
        t.nontrivial(num);
        PBT_CHECK(t, ALL(diff, T, int, iff<num, T>), "derivative of ", n);
        PBT_CHECK(t, ALL(integrate, T, int, none), "integral of ", n);
        PBT_CHECK(t, ALL(degree, T, int, none), "degree of ", n);
        PBT_CHECK(t, ALL(p_degree, T, int, none), "partial degree of ", n);
        PBT_CHECK(t, ALL(trim, T, int, T), "trimming of ", n);
        PBT_CHECK(t, ALL(tdeg, T, int, none), "truncation of ", n);
        PBT_CHECK(t, ALL(tpdeg, T, int, none), "truncation of ", n);
        PBT_CHECK(t, ALL(add_symbols, T, int, none), "symbols of ", n);
        PBT_CHECK(t, ALL(filtered, T, bool (*)(int), none), "filtering of ", n);
        by_index(t.below(count(subs_types{})), subs_types{}, [&](auto y) {
            using U = typename decltype(y)::type;
            const auto m = tname<U>() + " in " + n;
            PBT_CHECK(t, ALL(subs, T, U, T), "substitution of ", m);
            PBT_CHECK(t, ALL(evaluate, T, U, T), "evaluation of ", m);
        });
    });
}
#endif

#if VARIANT == 2
namespace
{
template <typename T>
using term_pred = bool (*)(const std::pair<const typename R<T>::key, typename R<T>::cf> &);
template <typename T>
using term_void = void (*)(const std::pair<const typename R<T>::key, typename R<T>::cf> &);
template <typename T>
using term_nonconst = bool (*)(std::pair<const typename R<T>::key, typename R<T>::cf> &);
} // namespace
PBT_SUB(degrees, 40000, 200000,
        "15 series types, by value, constant and reference: degrees exist if a part has one, of the type of the sum; truncation by "
        "degree of mutable polynomials and power series whose keys alone have one, with limits that compare with it; truncated "
        "products likewise; non-trivial: a degree")
{
    by_index(t.below(count(series_types{})), series_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        const auto n = tname<T>();
        using D = typename decltype(degree_of<T>())::type;
        constexpr bool deg = with_degree<T>();
        t.nontrivial(deg);
        PBT_CHECK(t, ALL(degree, T, int, D), "degree of ", n);
        PBT_CHECK(t, ALL(p_degree, T, int, D), "partial degree of ", n);
        PBT_CHECK(t, ALL(p_degree_num, T, int, none), "partial degree by a number of ", n);
        PBT_CHECK(t, (obake::is_with_degree_v<T> == deg && obake::is_with_degree_v<const T &> == deg
                      && obake::is_with_p_degree_v<T> == deg && obake::is_with_p_degree_v<const T &> == deg
                      && obake::WithDegree<const T &> == deg && obake::WithPDegree<const T &> == deg),
                  "queries for degrees of ", n);
        constexpr bool key_only = R<T>::mono && !with_degree<typename R<T>::cf>();
        using limits = tl<int, unsigned, std::int64_t, Z, Q, double, std::string, inert, void *>;
        by_index(t.below(count(limits{})), limits{}, [&](auto y) {
            using U = typename decltype(y)::type;
            constexpr bool cmp = std::is_arithmetic_v<U> || height<U> != 0;
            const auto m = tname<U>() + " for " + n;
            constexpr bool tr = key_only && R<T>::poly && cmp;
            // Power series: set aside by their own sub-check.
            if constexpr (!R<T>::ps) {
                PBT_CHECK(t, IS(tdeg, T &, U, iff<tr, void>), "truncation to ", m);
                PBT_CHECK(t, IS(tpdeg, T &, U, iff<tr, void>), "partial truncation to ", m);
            } else {
                PBT_CHECK(t, IS(tdeg, T &, U, iff<cmp, void>), "truncation to ", m);
                PBT_CHECK(t, IS(tpdeg, T &, U, iff<cmp, void>), "partial truncation to ", m);
            }
            PBT_CHECK(t, IS(tdeg, const T &, U, none), "truncation of a constant to ", m);
            PBT_CHECK(t, IS(tpdeg, const T &, U, none), "partial truncation of a constant to ", m);
            PBT_CHECK(t, ALL(tmul, T, U, iff<(tr && all_poly<T>()), T>), "product truncated to ", m);
            PBT_CHECK(t, ALL(tpmul, T, U, iff<(tr && all_poly<T>()), T>), "product truncated partially to ", m);
        });
    });
}

PBT_SUB(forms, 40000, 200000,
        "15 series types, by value, constant and reference: trimming, added symbols, filters by predicates of terms, size, output; "
        "non-trivial: every type")
{
    by_index(t.below(count(series_types{})), series_types{}, [&](auto x) {
        using T = typename decltype(x)::type;
        const auto n = tname<T>();
        t.nontrivial(true);
        PBT_CHECK(t, ALL(trim, T, int, T), "trimming of ", n);
        PBT_CHECK(t, ALL(add_symbols, T, int, T), "added symbols of ", n);
        PBT_CHECK(t, ALL(bsize, T, int, std::size_t), "size of ", n);
        PBT_CHECK(t, ALL(stream, T, int, std::ostream &), "output of ", n);
        PBT_CHECK(t, ALL(tex, T, int, void), "output of ", n);
        PBT_CHECK(t, ALL(filtered, T, term_pred<T>, T), "filtered terms of ", n);
        PBT_CHECK(t, ALL(filtered, T, term_void<T>, none), "filter that returns nothing of ", n);
        PBT_CHECK(t, ALL(filtered, T, term_nonconst<T>, none), "filter that changes terms of ", n);
        PBT_CHECK(t, ALL(filtered, T, inert, none), "filter that cannot be called of ", n);
        PBT_CHECK(t, IS(filter, T &, term_pred<T>, void), "filter in place of ", n);
        PBT_CHECK(t, IS(filter, const T &, term_pred<T>, none), "filter of a constant ", n);
        PBT_CHECK(t, IS(filter, T &, term_void<T>, none), "filter that returns nothing of ", n);
        PBT_CHECK(t, IS(filter, T &, inert, none), "filter that cannot be called of ", n);
    });
}
#endif

#if VARIANT == 3
namespace u11_ns
{
// What a coefficient may lack.
enum cf_bit : unsigned {
    c_diff,      // no derivative
    c_diff_type, // a derivative that is not a coefficient
    c_exp,       // no product with an exponent
    c_exp_type,  // a product with an exponent that is no coefficient
    c_quot,      // no quotient by an exponent
    c_quot_type, // a quotient by an exponent that is no coefficient
    c_int,       // not from an integer
    c_subs,      // no substitution
    c_subs_const,// substitution only of what is not constant
    c_subs_type, // a substitution that is not a coefficient
    c_eval,      // no evaluation
    c_eval_const,
    c_eval_type,
    c_lmul,      // no product of a number and a coefficient
    c_mul,       // no product of coefficients
    c_in_place,  // no product in place
    c_trim,      // no trimming
    c_trim_const,
    c_trim_type, // trims to another type
    c_size,      // no size
    c_degree,    // with a degree
    c_p_degree,  // with a partial degree
    c_bits
};
struct other {
};
template <unsigned long M>
struct ccf {
    static constexpr bool is(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    static constexpr bool has(unsigned b)
    {
        return !is(b);
    }
    double v = 0;
    ccf() = default;
    explicit ccf(int n) requires(has(c_int))
        : v(n)
    {
    }
    ccf &operator+=(const ccf &o)
    {
        v += o.v;
        return *this;
    }
    ccf &operator-=(const ccf &o)
    {
        v -= o.v;
        return *this;
    }
    ccf &operator*=(const ccf &o) requires(has(c_in_place))
    {
        v *= o.v;
        return *this;
    }
    friend ccf operator+(const ccf &a, const ccf &b)
    {
        auto r = a;
        return r += b;
    }
    friend ccf operator-(const ccf &a, const ccf &b)
    {
        auto r = a;
        return r -= b;
    }
    friend bool is_zero(const ccf &x)
    {
        return x.v == 0;
    }
    friend void negate(ccf &x)
    {
        x.v = -x.v;
    }
    friend void cf_stream_insert(std::ostream &os, const ccf &x)
    {
        os << x.v;
    }
    friend bool operator==(const ccf &a, const ccf &b)
    {
        return a.v == b.v;
    }
    friend ccf diff(const ccf &, const std::string &) requires(has(c_diff) && has(c_diff_type))
    {
        return {};
    }
    friend other diff(const ccf &, const std::string &) requires(has(c_diff) && is(c_diff_type))
    {
        return {};
    }
    friend ccf operator*(const ccf &a, std::int32_t n) requires(has(c_exp) && has(c_exp_type))
    {
        auto r = a;
        r.v *= n;
        return r;
    }
    friend other operator*(const ccf &, std::int32_t) requires(has(c_exp) && is(c_exp_type))
    {
        return {};
    }
    friend ccf operator/(const ccf &a, std::int32_t n) requires(has(c_quot) && has(c_quot_type))
    {
        auto r = a;
        r.v /= n;
        return r;
    }
    friend other operator/(const ccf &, std::int32_t) requires(has(c_quot) && is(c_quot_type))
    {
        return {};
    }
    friend ccf operator*(double n, const ccf &a) requires(has(c_lmul))
    {
        auto r = a;
        r.v *= n;
        return r;
    }
    friend ccf operator*(const ccf &a, const ccf &b) requires(has(c_mul))
    {
        auto r = a;
        r.v *= b.v;
        return r;
    }
    friend ccf subs(const ccf &a, const symbol_map<double> &) requires(has(c_subs) && has(c_subs_const) && has(c_subs_type))
    {
        return a;
    }
    friend ccf subs(ccf &a, const symbol_map<double> &) requires(has(c_subs) && is(c_subs_const) && has(c_subs_type))
    {
        return a;
    }
    friend other subs(const ccf &, const symbol_map<double> &) requires(has(c_subs) && has(c_subs_const) && is(c_subs_type))
    {
        return {};
    }
    friend ccf evaluate(const ccf &a, const symbol_map<double> &) requires(has(c_eval) && has(c_eval_const) && has(c_eval_type))
    {
        return a;
    }
    friend ccf evaluate(ccf &a, const symbol_map<double> &) requires(has(c_eval) && is(c_eval_const) && has(c_eval_type))
    {
        return a;
    }
    friend other evaluate(const ccf &, const symbol_map<double> &) requires(has(c_eval) && has(c_eval_const) && is(c_eval_type))
    {
        return {};
    }
    friend ccf trim(const ccf &a) requires(has(c_trim) && has(c_trim_const) && has(c_trim_type))
    {
        return a;
    }
    friend ccf trim(ccf &a) requires(has(c_trim) && is(c_trim_const) && has(c_trim_type))
    {
        return a;
    }
    friend other trim(const ccf &) requires(has(c_trim) && has(c_trim_const) && is(c_trim_type))
    {
        return {};
    }
    friend std::int64_t degree(const ccf &) requires(is(c_degree))
    {
        return 0;
    }
    friend std::int64_t p_degree(const ccf &, const symbol_set &) requires(is(c_p_degree))
    {
        return 0;
    }
    friend std::size_t byte_size(const ccf &) requires(has(c_size))
    {
        return sizeof(ccf);
    }
};
} // namespace u11_ns

namespace
{
using namespace u11_ns;
template <unsigned long M, unsigned... B>
constexpr bool lacks_none = ((((M >> B) & 1ul) == 0ul) && ...);
template <unsigned long M>
constexpr bool sub_done = lacks_none<M, c_int, c_lmul, c_mul, c_in_place> && (lacks_none<M, c_subs_type> || !lacks_none<M, c_subs, c_subs_const>);
template <typename F, std::size_t... I>
void by_bit(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I)>{}), 0) : 0), ...);
}
template <typename F, std::size_t... I>
void by_two(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    constexpr auto n = sizeof...(I);
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I) | (1ul << ((I * 5 + 7) % n))>{}), 0) : 0), ...);
}
} // namespace

PBT_SUB(coefficients, 40000, 200000,
        "polynomials and power series over 45 types of coefficients that lack none, one or two of 22 properties: each function exists "
        "exactly when the properties it needs are there; non-trivial: something is lacking")
{
    const auto check = [&](auto m) {
        constexpr unsigned long M = decltype(m)::value;
        using C = ccf<M>;
        using P = polynomial<pk, C>;
        const auto n = std::to_string(M);
        PBT_CHECK(t, obake::is_cf_v<C>, "coefficient ", n);
        t.nontrivial(M != 0);
        const auto both = [&](auto x) {
            using S = typename decltype(x)::type;
            const auto w = tname<S>();
            constexpr bool diff = lacks_none<M, c_diff, c_diff_type, c_exp, c_exp_type>;
            PBT_CHECK(t, ALL(diff, S, int, iff<diff, S>), "derivative with ", w);
            constexpr bool integ = lacks_none<M, c_diff, c_diff_type, c_quot, c_quot_type>;
            PBT_CHECK(t, ALL(integrate, S, int, iff<integ, S>), "integral with ", w);
            constexpr bool mul = lacks_none<M, c_mul>;
            PBT_CHECK(t, ALL(mul, S, int, iff<mul, S>), "product with ", w);
            PBT_CHECK(t, ALL(subs, S, double, S), "substitution with ", w);
            // A coefficient that cannot be evaluated counts as a constant.
            constexpr bool ev = lacks_none<M, c_int, c_lmul> && (lacks_none<M, c_eval_type> || !lacks_none<M, c_eval, c_eval_const>);
            PBT_CHECK(t, ALL(evaluate, S, double, std::conditional_t<ev, C, S>), "evaluation with ", w);
            PBT_CHECK(t, ALL(trim, S, int, S), "trimming with ", w);
            // What they do: substitution and trimming that are not offered leave a copy.
            S o;
            o.set_symbol_set(symbol_set{"x", "y"});
            C c;
            c.v = 3;
            const std::int32_t ex[] = {1, 0};
            o.add_term(pk(ex, ex + 2), c);
            const auto y = obake::subs(o, symbol_map<double>{{"x", 2.}});
            PBT_CHECK(t, y.size() == 1u && y.begin()->second.v == (sub_done<M> ? 6 : 3), "substitution with ", w, ": ", y.begin()->second.v);
            const auto z = obake::trim(o);
            constexpr bool tr = lacks_none<M, c_trim_type> || !lacks_none<M, c_trim, c_trim_const>;
            PBT_CHECK(t, z.get_symbol_set().size() == (tr ? 1u : 2u), "trimming with ", w);
            if constexpr (ev) {
                const auto q = obake::evaluate(o, symbol_map<double>{{"x", 5.}, {"y", 7.}});
                PBT_CHECK(t, q.v == 15, "evaluation with ", w, ": ", q.v);
            }
            PBT_CHECK(t, ALL(add, S, int, S), "sum with ", w);
            PBT_CHECK(t, ALL(add_symbols, S, int, S), "added symbols with ", w);
        };
        both(ty<P>{});
        if constexpr (lacks_none<M, c_degree, c_p_degree>) {
            both(ty<p_series<pk, C>>{});
        }
        constexpr bool mul = lacks_none<M, c_mul>;
        using D = std::conditional_t<lacks_none<M, c_degree>, std::int32_t, std::int64_t>;
        using PD = std::conditional_t<lacks_none<M, c_p_degree>, std::int32_t, std::int64_t>;
        PBT_CHECK(t, ALL(degree, P, int, D), "degree with ", n);
        PBT_CHECK(t, ALL(p_degree, P, int, PD), "partial degree with ", n);
        PBT_CHECK(t, IS(tdeg, P &, int, iff<(lacks_none<M, c_degree>), void>), "truncation with ", n);
        PBT_CHECK(t, IS(tpdeg, P &, int, iff<(lacks_none<M, c_p_degree>), void>), "partial truncation with ", n);
        PBT_CHECK(t, ALL(tmul, P, int, iff<(mul && lacks_none<M, c_degree>), P>), "truncated product with ", n);
        PBT_CHECK(t, ALL(tpmul, P, int, iff<(mul && lacks_none<M, c_p_degree>), P>), "truncated product with ", n);
    };
    switch (t.below(4)) {
        case 0:
            check(std::integral_constant<unsigned long, 0>{});
            break;
        case 1:
            by_two(t.below(c_bits), check, std::make_index_sequence<c_bits>{});
            break;
        default:
            by_bit(t.below(c_bits), check, std::make_index_sequence<c_bits>{});
    }
}
#endif

#if VARIANT == 4
namespace u11_ns
{
// What a key may lack.
enum key_bit : unsigned {
    k_merge,
    k_degree,
    k_p_degree,
    k_trim,
    k_trim_const,
    k_identify,
    k_diff,
    k_diff_const,
    k_integrate,
    k_subs,
    k_evaluate,
    k_mul,
    k_bits
};
template <unsigned long M>
struct mkey : ukey {
    static constexpr bool is(unsigned b)
    {
        return ((M >> b) & 1u) != 0u;
    }
    static constexpr bool has(unsigned b)
    {
        return !is(b);
    }
    using ukey::ukey;
};
#define NEEDS(b) requires(mkey<M>::has(b))
#define LACKS(b) requires(mkey<M>::is(b))
template <unsigned long M>
mkey<M> key_merge_symbols(const mkey<M> &, const obake::symbol_idx_map<symbol_set> &, const symbol_set &) NEEDS(k_merge);
template <unsigned long M>
mkey<M> key_merge_symbols(const mkey<M> &, const obake::symbol_idx_map<symbol_set> &, const symbol_set &) LACKS(k_merge)
= delete;
template <unsigned long M>
int key_degree(const mkey<M> &, const symbol_set &) NEEDS(k_degree);
template <unsigned long M>
int key_p_degree(const mkey<M> &, const obake::symbol_idx_set &, const symbol_set &) NEEDS(k_p_degree);
template <unsigned long M>
mkey<M> key_trim(const mkey<M> &k, const obake::symbol_idx_set &si, const symbol_set &ss) requires(mkey<M>::has(k_trim) && mkey<M>::has(k_trim_const))
{
    mkey<M> r;
    for (std::size_t i = 0; i < ss.size(); ++i) {
        if (si.find(i) == si.end()) r.e.push_back(k.e[i]);
    }
    return r;
}
template <unsigned long M>
mkey<M> key_trim(const mkey<M> &, const obake::symbol_idx_set &, const symbol_set &) requires(mkey<M>::is(k_trim) || mkey<M>::is(k_trim_const))
= delete;
template <unsigned long M>
mkey<M> key_trim(mkey<M> &, const obake::symbol_idx_set &, const symbol_set &) requires(mkey<M>::has(k_trim) && mkey<M>::is(k_trim_const));
template <unsigned long M>
void key_trim_identify(std::vector<int> &v, const mkey<M> &k, const symbol_set &) NEEDS(k_identify)
{
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (k.e[i] != 0) v[i] = 0;
    }
}
template <unsigned long M>
void key_trim_identify(std::vector<int> &, const mkey<M> &, const symbol_set &) LACKS(k_identify)
= delete;
template <unsigned long M>
std::pair<int, mkey<M>> monomial_diff(const mkey<M> &, const obake::symbol_idx &, const symbol_set &) requires(mkey<M>::has(k_diff) && mkey<M>::has(k_diff_const));
template <unsigned long M>
std::pair<int, mkey<M>> monomial_diff(mkey<M> &, const obake::symbol_idx &, const symbol_set &) requires(mkey<M>::has(k_diff) && mkey<M>::is(k_diff_const));
template <unsigned long M>
std::pair<int, mkey<M>> monomial_integrate(const mkey<M> &, const obake::symbol_idx &, const symbol_set &) NEEDS(k_integrate);
template <unsigned long M>
std::pair<long double, mkey<M>> monomial_subs(const mkey<M> &, const obake::symbol_idx_map<long double> &, const symbol_set &) NEEDS(k_subs);
template <unsigned long M>
long double key_evaluate(const mkey<M> &, const obake::symbol_idx_map<long double> &, const symbol_set &) NEEDS(k_evaluate);
template <unsigned long M>
void monomial_mul(mkey<M> &, const mkey<M> &, const mkey<M> &, const symbol_set &) NEEDS(k_mul);
} // namespace u11_ns

namespace
{
using namespace u11_ns;
template <unsigned long M, unsigned... B>
constexpr bool lacks_none = ((((M >> B) & 1ul) == 0ul) && ...);
template <typename F, std::size_t... I>
void by_bit(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I)>{}), 0) : 0), ...);
}
template <typename F, std::size_t... I>
void by_two(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    constexpr auto n = sizeof...(I);
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I) | (1ul << ((I * 5 + 1) % n))>{}), 0) : 0), ...);
}
} // namespace

PBT_SUB(keys, 40000, 200000,
        "polynomials and power series over 25 types of keys that lack none, one or two of 12 operations: each function exists exactly "
        "when the operations it needs are there; non-trivial: something is lacking")
{
    const auto check = [&](auto m) {
        constexpr unsigned long M = decltype(m)::value;
        using K = mkey<M>;
        using P = polynomial<K, double>;
        const auto n = std::to_string(M);
        PBT_CHECK(t, obake::is_key_v<K>, "key ", n);
        t.nontrivial(M != 0);
        const auto both = [&](auto x) {
            using S = typename decltype(x)::type;
            const auto w = tname<S>();
            constexpr bool merge = lacks_none<M, k_merge>;
            PBT_CHECK(t, ALL(diff, S, int, iff<(lacks_none<M, k_diff, k_diff_const>), S>), "derivative with ", w);
            PBT_CHECK(t, ALL(integrate, S, int, iff<(lacks_none<M, k_integrate> && merge), S>), "integral with ", w);
            constexpr bool mul = lacks_none<M, k_mul> && merge;
            PBT_CHECK(t, ALL(mul, S, int, iff<mul, S>), "product with ", w);
            using L = series<K, long double, obake::series_tag_t<S>>;
            PBT_CHECK(t, ALL(subs, S, long double, std::conditional_t<lacks_none<M, k_subs, k_merge>, L, S>), "substitution with ", w);
            PBT_CHECK(t, ALL(subs, S, double, S), "substitution of doubles with ", w);
            PBT_CHECK(t, ALL(evaluate, S, long double, std::conditional_t<lacks_none<M, k_evaluate>, long double, S>), "evaluation with ", w);
            PBT_CHECK(t, ALL(evaluate, S, double, S), "evaluation of doubles with ", w);
            PBT_CHECK(t, ALL(trim, S, int, S), "trimming with ", w);
            S o;
            o.set_symbol_set(symbol_set{"x", "y"});
            const std::int64_t ex[] = {1, 0};
            o.add_term(K(ex, ex + 2), 3.);
            const auto z = obake::trim(o);
            constexpr bool tr = lacks_none<M, k_trim, k_trim_const, k_identify>;
            PBT_CHECK(t, z.get_symbol_set().size() == (tr ? 1u : 2u) && z.size() == 1u && z.begin()->second == 3, "trimming with ", w);
            PBT_CHECK(t, ALL(degree, S, int, iff<(lacks_none<M, k_degree>), int>), "degree with ", w);
            PBT_CHECK(t, ALL(p_degree, S, int, iff<(lacks_none<M, k_p_degree>), int>), "partial degree with ", w);
            PBT_CHECK(t, IS(tdeg, S &, int, iff<(lacks_none<M, k_degree>), void>), "truncation with ", w);
            PBT_CHECK(t, IS(tpdeg, S &, int, iff<(lacks_none<M, k_p_degree>), void>), "partial truncation with ", w);
            PBT_CHECK(t, ALL(add, S, int, iff<merge, S>), "sum with ", w);
            PBT_CHECK(t, ALL(add_symbols, S, int, iff<merge, S>), "added symbols with ", w);
            PBT_CHECK(t, ALL(bsize, S, int, std::size_t), "size with ", w);
        };
        both(ty<P>{});
        if constexpr (lacks_none<M, k_degree, k_p_degree>) {
            both(ty<p_series<K, double>>{});
        }
        constexpr bool mul = lacks_none<M, k_mul, k_merge>;
        PBT_CHECK(t, ALL(tmul, P, int, iff<(mul && lacks_none<M, k_degree>), P>), "truncated product with ", n);
        PBT_CHECK(t, ALL(tpmul, P, int, iff<(mul && lacks_none<M, k_p_degree>), P>), "truncated product with ", n);
        PBT_CHECK(t, ALL(tex, P, int, void), "output with ", n);
    };
    switch (t.below(4)) {
        case 0:
            check(std::integral_constant<unsigned long, 0>{});
            break;
        case 1:
            by_two(t.below(k_bits), check, std::make_index_sequence<k_bits>{});
            break;
        default:
            by_bit(t.below(k_bits), check, std::make_index_sequence<k_bits>{});
    }
}
#endif

#if VARIANT == 5
namespace u11_ns
{
// What a number and a coefficient may lack between them.
enum op_bit : unsigned {
    o_add,       // no coefficient + number
    o_radd,      // no number + coefficient
    o_sub,
    o_rsub,
    o_mul,
    o_rmul,
    o_div,
    o_add_type,  // coefficient + number is no coefficient
    o_rsub_type,
    o_mul_type,
    o_rmul_type,
    o_div_type,
    o_mul_in,    // no product in place
    o_mul_in_const, // in place only with a number that is not constant
    o_div_in,
    o_from,      // the coefficient cannot be made from the number
    o_from_const,// only from a number that is not constant
    o_zero,      // the number cannot be tested for zero
    o_eq,        // no comparison
    o_cf_add,    // no sum of coefficients
    o_cf_sub,
    o_cf_mul,
    o_cf_eq,
    // The same with another type of coefficients.
    o_two_add,   // no sum of the two
    o_two_radd,  // no sum the other way around
    o_two_mul,
    o_two_rmul,
    o_two_from_lvalue, // the first cannot be made from a constant of the second
    o_two_from_rvalue, // the first cannot be made from a temporary of the second
    o_two_eq,
    o_bits
};
struct other {
};
template <unsigned long M>
struct bits {
    static constexpr bool is(unsigned b)
    {
        return ((M >> b) & 1ul) != 0ul;
    }
    static constexpr bool has(unsigned b)
    {
        return !is(b);
    }
};
template <unsigned long M>
struct num : bits<M> {
    double v = 0;
};
template <unsigned long M>
bool is_zero(const num<M> &x) requires(bits<M>::has(o_zero))
{
    return x.v == 0;
}
template <typename Self>
struct sums {
    double v = 0;
    Self &operator+=(const Self &o)
    {
        v += o.v;
        return static_cast<Self &>(*this);
    }
    Self &operator-=(const Self &o)
    {
        v -= o.v;
        return static_cast<Self &>(*this);
    }
    friend bool is_zero(const Self &x)
    {
        return x.v == 0;
    }
    friend void negate(Self &x)
    {
        x.v = -x.v;
    }
    friend void cf_stream_insert(std::ostream &os, const Self &x)
    {
        os << x.v;
    }
};
template <unsigned long M>
struct two : sums<two<M>>, bits<M> {
};
template <unsigned long M>
struct one : sums<one<M>>, bits<M> {
    one() = default;
    one(double x)
    {
        this->v = x;
    }
    explicit one(const num<M> &n) requires(bits<M>::has(o_from) && bits<M>::has(o_from_const)) : one(n.v) {}
    explicit one(num<M> &n) requires(bits<M>::has(o_from) && bits<M>::is(o_from_const)) : one(n.v) {}
    explicit one(const two<M> &n) requires(bits<M>::has(o_two_from_lvalue)) : one(n.v) {}
    explicit one(const two<M> &n) requires(bits<M>::is(o_two_from_lvalue))
    = delete;
    explicit one(two<M> &&n) requires(bits<M>::has(o_two_from_rvalue)) : one(n.v) {}
    explicit one(two<M> &&n) requires(bits<M>::is(o_two_from_rvalue))
    = delete;
    one &operator*=(const num<M> &n) requires(bits<M>::has(o_mul_in) && bits<M>::has(o_mul_in_const))
    {
        this->v *= n.v;
        return *this;
    }
    one &operator*=(num<M> &n) requires(bits<M>::has(o_mul_in) && bits<M>::is(o_mul_in_const))
    {
        this->v *= n.v;
        return *this;
    }
    one &operator/=(const num<M> &n) requires(bits<M>::has(o_div_in))
    {
        this->v /= n.v;
        return *this;
    }
};
#define OP(op, A, B, lack, type)                                                                                                 \
    template <unsigned long M>                                                                                                   \
    one<M> operator op(const A<M> &a, const B<M> &b) requires(bits<M>::has(lack) && bits<M>::has(type))                          \
    {                                                                                                                            \
        return one<M>(a.v op b.v);                                                                                               \
    }                                                                                                                            \
    template <unsigned long M>                                                                                                   \
    other operator op(const A<M> &, const B<M> &) requires(bits<M>::has(lack) && bits<M>::is(type))                              \
    {                                                                                                                            \
        return {};                                                                                                               \
    }
constexpr unsigned no_bit = 63;
OP(+, one, num, o_add, o_add_type)
OP(+, num, one, o_radd, no_bit)
OP(-, one, num, o_sub, no_bit)
OP(-, num, one, o_rsub, o_rsub_type)
OP(*, one, num, o_mul, o_mul_type)
OP(*, num, one, o_rmul, o_rmul_type)
OP(/, one, num, o_div, o_div_type)
OP(+, one, one, o_cf_add, no_bit)
OP(-, one, one, o_cf_sub, no_bit)
OP(*, one, one, o_cf_mul, no_bit)
OP(+, one, two, o_two_add, no_bit)
OP(+, two, one, o_two_radd, no_bit)
OP(*, one, two, o_two_mul, no_bit)
OP(*, two, one, o_two_rmul, no_bit)
template <unsigned long M>
bool operator==(const one<M> &a, const num<M> &b) requires(bits<M>::has(o_eq))
{
    return a.v == b.v;
}
template <unsigned long M>
bool operator==(const one<M> &a, const one<M> &b) requires(bits<M>::has(o_cf_eq))
{
    return a.v == b.v;
}
template <unsigned long M>
bool operator==(const one<M> &a, const two<M> &b) requires(bits<M>::has(o_two_eq))
{
    return a.v == b.v;
}
} // namespace u11_ns

namespace
{
using namespace u11_ns;
template <unsigned long M, unsigned... B>
constexpr bool lacks_none = ((((M >> B) & 1ul) == 0ul) && ...);
template <typename F, std::size_t... I>
void by_bit(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I)>{}), 0) : 0), ...);
}
template <typename F, std::size_t... I>
void by_two(std::uint64_t k, F &&f, std::index_sequence<I...>)
{
    constexpr auto n = sizeof...(I);
    ((I == k ? (f(std::integral_constant<unsigned long, (1ul << I) | (1ul << ((I * 7 + 11) % n))>{}), 0) : 0), ...);
}
#define TWO(name, ...)                                                                                                           \
    template <typename A, typename B>                                                                                            \
    concept can_##name = requires(A &&a, B &&b)                                                                                  \
    {                                                                                                                            \
        __VA_ARGS__;                                                                                                             \
    };                                                                                                                           \
    template <typename A, typename B>                                                                                            \
    constexpr auto g_##name()                                                                                                    \
    {                                                                                                                            \
        if constexpr (can_##name<A, B>) {                                                                                        \
            return [](A &&a, B &&b) {                                                                                            \
                (void)a;                                                                                                         \
                (void)b;                                                                                                         \
                return ty<decltype(__VA_ARGS__)>{};                                                                              \
            };                                                                                                                   \
        } else {                                                                                                                 \
            return [](A &&, B &&) { return ty<none>{}; };                                                                        \
        }                                                                                                                        \
    }                                                                                                                            \
    template <typename A, typename B>                                                                                            \
    using r_##name = typename decltype(g_##name<A, B>()(std::declval<A &&>(), std::declval<B &&>()))::type;
TWO(add, std::forward<A>(a) + std::forward<B>(b))
TWO(sub, std::forward<A>(a) - std::forward<B>(b))
TWO(mul, std::forward<A>(a) * std::forward<B>(b))
TWO(div, std::forward<A>(a) / std::forward<B>(b))
TWO(eq, std::forward<A>(a) == std::forward<B>(b))
TWO(ne, std::forward<A>(a) != std::forward<B>(b))
TWO(add_in, std::forward<A>(a) += std::forward<B>(b))
TWO(sub_in, std::forward<A>(a) -= std::forward<B>(b))
TWO(mul_in, std::forward<A>(a) *= std::forward<B>(b))
TWO(div_in, std::forward<A>(a) /= std::forward<B>(b))
#define SAME2(f, A, B, ...) (std::is_same_v<r_##f<A, B>, __VA_ARGS__>)
// Both operands constant; both temporary.
#define BOTH(f, A, B, ...) (SAME2(f, const A &, const B &, __VA_ARGS__) && SAME2(f, A, B, __VA_ARGS__) && SAME2(f, A &, const B &, __VA_ARGS__))
} // namespace

PBT_SUB(operands, 60000, 200000,
        "series and numbers, and series over two types of coefficients, which lack none, one or two of 30 operations: each operator of "
        "the series exists exactly when the operations it needs are there; non-trivial: something is lacking")
{
    const auto check = [&](auto m) {
        constexpr unsigned long M = decltype(m)::value;
        using C = one<M>;
        using D = two<M>;
        using N = num<M>;
        const auto both = [&](auto xp, auto xd) {
            using P = typename decltype(xp)::type;
            using R = typename decltype(xd)::type;
            const auto w = tname<P>();
            constexpr bool from = lacks_none<M, o_from>, from_c = lacks_none<M, o_from, o_from_const>;
            // A number.
            PBT_CHECK(t, SAME2(add, const P &, const N &, iff<(from_c && lacks_none<M, o_add, o_add_type>), P>), w, " plus number");
            PBT_CHECK(t, SAME2(add, const P &, N &, iff<(from && lacks_none<M, o_add, o_add_type>), P>), w, " plus number");
            PBT_CHECK(t, SAME2(add, P, N, iff<(from_c && lacks_none<M, o_add, o_add_type>), P>), w, " plus number");
            PBT_CHECK(t, SAME2(add, const N &, const P &, iff<(from_c && lacks_none<M, o_radd>), P>), w, " added to a number");
            PBT_CHECK(t, SAME2(add, N &, P, iff<(from && lacks_none<M, o_radd>), P>), w, " added to a number");
            PBT_CHECK(t, BOTH(sub, P, N, iff<(from_c && lacks_none<M, o_sub>), P>), w, " less a number");
            PBT_CHECK(t, SAME2(sub, const N &, const P &, iff<(from_c && lacks_none<M, o_rsub, o_rsub_type>), P>), "number less ", w);
            PBT_CHECK(t, SAME2(sub, N &, const P &, iff<(from && lacks_none<M, o_rsub, o_rsub_type>), P>), "number less ", w);
            PBT_CHECK(t, SAME2(add_in, P &, const N &, iff<from_c, P &>), w, " plus number, in place");
            PBT_CHECK(t, SAME2(sub_in, P &, N &, iff<from, P &>), w, " less number, in place");
            PBT_CHECK(t, SAME2(add_in, const P &, const N &, none), "constant ", w, " plus number, in place");
            constexpr bool mul = lacks_none<M, o_zero, o_mul, o_mul_type, o_mul_in, o_mul_in_const>;
            PBT_CHECK(t, BOTH(mul, P, N, iff<mul, P>), w, " times number");
            PBT_CHECK(t, BOTH(mul, N, P, iff<(lacks_none<M, o_zero, o_rmul, o_rmul_type, o_mul_in, o_mul_in_const>), P>), "number times ", w);
            PBT_CHECK(t, SAME2(mul_in, P &, const N &, iff<mul, P &>), w, " times number, in place");
            PBT_CHECK(t, SAME2(mul_in, const P &, const N &, none), "constant ", w, " times number, in place");
            constexpr bool div = lacks_none<M, o_div, o_div_type, o_div_in>;
            PBT_CHECK(t, BOTH(div, P, N, iff<div, P>), w, " by number");
            PBT_CHECK(t, BOTH(div, N, P, none), "number by ", w);
            PBT_CHECK(t, SAME2(div_in, P &, const N &, iff<div, P &>), w, " by number, in place");
            PBT_CHECK(t, BOTH(div, P, P, none), w, " by itself");
            constexpr bool eq = lacks_none<M, o_zero, o_eq>;
            PBT_CHECK(t, BOTH(eq, P, N, iff<eq, bool>), w, " compared with a number");
            PBT_CHECK(t, BOTH(ne, N, P, iff<eq, bool>), w, " compared with a number");
            // Itself.
            PBT_CHECK(t, BOTH(add, P, P, iff<(lacks_none<M, o_cf_add>), P>), w, " plus itself");
            PBT_CHECK(t, BOTH(sub, P, P, iff<(lacks_none<M, o_cf_sub>), P>), w, " less itself");
            PBT_CHECK(t, BOTH(mul, P, P, iff<(lacks_none<M, o_cf_mul>), P>), w, " times itself");
            PBT_CHECK(t, BOTH(eq, P, P, iff<(lacks_none<M, o_cf_eq>), bool>), w, " compared with itself");
            PBT_CHECK(t, BOTH(ne, P, P, iff<(lacks_none<M, o_cf_eq>), bool>), w, " compared with itself");
            PBT_CHECK(t, SAME2(add_in, P &, P, P &) && SAME2(sub_in, P &, const P &, P &), w, " plus itself, in place");
            // A series over other coefficients.
            constexpr bool fl = lacks_none<M, o_two_from_lvalue>, fr = lacks_none<M, o_two_from_rvalue>;
            PBT_CHECK(t, SAME2(add, const P &, const R &, iff<(fl && lacks_none<M, o_two_add>), P>), w, " plus a series");
            PBT_CHECK(t, SAME2(add, P, R, iff<(fr && lacks_none<M, o_two_add>), P>), w, " plus a series");
            PBT_CHECK(t, SAME2(add, P, R &, iff<(fl && lacks_none<M, o_two_add>), P>), w, " plus a series");
            PBT_CHECK(t, SAME2(add, const R &, P, iff<(fl && lacks_none<M, o_two_radd>), P>), "a series plus ", w);
            PBT_CHECK(t, SAME2(add, R, const P &, iff<(fr && lacks_none<M, o_two_radd>), P>), "a series plus ", w);
            PBT_CHECK(t, SAME2(add_in, P &, const R &, iff<(fl && fr), P &>), w, " plus a series in place");
            PBT_CHECK(t, SAME2(sub_in, P &, R, iff<(fl && fr), P &>), w, " less a series in place");
            PBT_CHECK(t, SAME2(add_in, R &, const P &, none), "a series plus ", w, " in place");
            constexpr bool mm = lacks_none<M, o_two_mul, o_two_rmul>;
            PBT_CHECK(t, BOTH(mul, P, R, iff<mm, P>), w, " times a series");
            PBT_CHECK(t, BOTH(mul, R, P, iff<mm, P>), "a series times ", w);
            PBT_CHECK(t, SAME2(mul_in, P &, const R &, iff<mm, P &>), w, " times a series in place");
            PBT_CHECK(t, SAME2(mul_in, R &, const P &, none), "a series times ", w, " in place");
            constexpr bool ee = lacks_none<M, o_two_eq>;
            PBT_CHECK(t, BOTH(eq, P, R, iff<ee, bool>), w, " compared with a series");
            PBT_CHECK(t, BOTH(ne, R, P, iff<ee, bool>), w, " compared with a series");
            // Conversions and assignments.
            PBT_CHECK(t, (std::is_constructible_v<P, const R &> == fl && std::is_constructible_v<P, R> == fr
                          && !std::is_constructible_v<R, const P &>),
                      "conversion of a series to ", w);
            PBT_CHECK(t, (std::is_constructible_v<P, const N &> == from_c && std::is_constructible_v<P, N &> == from),
                      "conversion of a number to ", w);
            PBT_CHECK(t, (std::is_assignable_v<P &, const R &> == fl && std::is_assignable_v<P &, R> == fr
                          && std::is_assignable_v<P &, const N &> == from_c),
                      "assignment to ", w);
        };
        PBT_CHECK(t, obake::is_cf_v<C> && obake::is_cf_v<D>, "coefficient ", M);
        t.nontrivial(M != 0);
        both(ty<polynomial<pk, C>>{}, ty<polynomial<pk, D>>{});
        both(ty<p_series<pk, C>>{}, ty<p_series<pk, D>>{});
    };
    switch (t.below(4)) {
        case 0:
            check(std::integral_constant<unsigned long, 0>{});
            break;
        case 1:
            by_two(t.below(o_bits), check, std::make_index_sequence<o_bits>{});
            break;
        default:
            by_bit(t.below(o_bits), check, std::make_index_sequence<o_bits>{});
    }
}
#endif
