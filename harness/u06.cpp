// U06: the library's functions for user-defined types pick the right customisation and pass the arguments on unchanged.
#include <pbt.hpp>

#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <obake/byte_size.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

#include "cust.hpp"

using namespace cu;

// clang-format off
#if VARIANT == 1
CU_ADL(cf_stream_insert, k_void) CU_VAR(cf_stream_insert, k_void) CU_IVAR(cf_stream_insert, k_void)
CU_ADL(cf_tex_stream_insert, k_void) CU_TAG(cf_tex_stream_insert, k_void) CU_ITAG(cf_tex_stream_insert, k_void)
CU_ADL(tex_stream_insert, k_void) CU_TAG(tex_stream_insert, k_void) CU_ITAG(tex_stream_insert, k_void)
CU_ADL(byte_size, k_size) CU_VAR(byte_size, k_size) CU_IVAR(byte_size, k_size)
CU_ADL(hash, k_size) CU_VAR(hash, k_size)
CU_ADL(is_zero, k_bool) CU_TAG(is_zero, k_bool) CU_ITAG(is_zero, k_bool)
CU_ADL(negate, k_void) CU_TAG(negate, k_void) CU_ITAG(negate, k_void)
CU_ADL(trim, k_self) CU_VAR(trim, k_self) CU_IVAR(trim, k_self)
CU_ADL(evaluate, k_int) CU_VAR2(evaluate, k_int) CU_IVAR2(evaluate, k_int)
CU_ADL(subs, k_int) CU_TAG(subs, k_int)
#elif VARIANT == 2
CU_ADL(degree, k_int) CU_VAR(degree, k_int) CU_IVAR(degree, k_int)
CU_ADL(p_degree, k_int) CU_VAR(p_degree, k_int) CU_IVAR(p_degree, k_int)
CU_ADL(diff, k_int) CU_VAR(diff, k_int)
CU_ADL(integrate, k_int) CU_VAR(integrate, k_int)
CU_ADL(pow, k_int) CU_TAG(pow, k_int) CU_ITAG(pow, k_int)
CU_ADL(fma3, k_void) CU_VAR3(fma3, k_void)
CU_ADL(truncate_degree, k_void) CU_VAR2(truncate_degree, k_void)
CU_ADL(truncate_p_degree, k_void) CU_VAR2(truncate_p_degree, k_void)
CU_ADL(safe_convert, k_bool) CU_TAG(safe_convert, k_bool)
#elif VARIANT == 3
CU_ADL(key_degree, k_int) CU_VAR(key_degree, k_int)
CU_ADL(key_p_degree, k_int) CU_VAR(key_p_degree, k_int)
CU_ADL(key_evaluate, k_int) CU_VAR2(key_evaluate, k_int)
CU_ADL(key_is_compatible, k_bool) CU_VAR(key_is_compatible, k_bool)
CU_ADL(key_is_one, k_bool) CU_VAR(key_is_one, k_bool)
CU_ADL(key_is_zero, k_bool) CU_VAR(key_is_zero, k_bool)
CU_ADL(key_merge_symbols, k_self) CU_VAR(key_merge_symbols, k_self)
CU_ADL(key_stream_insert, k_void) CU_VAR(key_stream_insert, k_void)
CU_ADL(key_tex_stream_insert, k_void) CU_TAG(key_tex_stream_insert, k_void)
CU_ADL(key_trim, k_self) CU_VAR(key_trim, k_self)
CU_ADL(key_trim_identify, k_void) CU_VAR(key_trim_identify, k_void)
#else
CU_ADL(monomial_diff, k_pair) CU_VAR(monomial_diff, k_pair)
CU_ADL(monomial_integrate, k_pair) CU_VAR(monomial_integrate, k_pair)
CU_ADL(monomial_mul, k_void) CU_VAR3(monomial_mul, k_void)
CU_ADL(monomial_pow, k_self) CU_VAR2(monomial_pow, k_self)
CU_ADL(monomial_range_overflow_check, k_bool) CU_VAR2(monomial_range_overflow_check, k_bool)
CU_ADL(monomial_subs, k_pair) CU_VAR2(monomial_subs, k_pair)
#endif
// clang-format on

namespace
{

struct env {
    std::ostringstream os;
    std::vector<int> iv;
    obake::symbol_set ss;
    obake::symbol_idx_set si;
    obake::symbol_idx_map<obake::symbol_set> ism;
    obake::symbol_map<double> sm;
    obake::symbol_idx_map<double> im;
    std::string s;
    obake::symbol_idx idx = 1;
};

// What a call returns, as a plain number, for comparison.
template <typename R>
long result_of(R &&r)
{
    using P = std::remove_cvref_t<R>;
    if constexpr (std::is_arithmetic_v<P>) {
        return static_cast<long>(r);
    } else if constexpr (info<P>::is) {
        return r.v;
    } else {
        return r.second.v * 100000l + r.first;
    }
}

template <kind K, typename X>
struct ret_of {
    using type = int;
};
template <typename X>
struct ret_of<k_size, X> {
    using type = std::size_t;
};
template <typename X>
struct ret_of<k_self, X> {
    using type = X;
};
template <typename X>
struct ret_of<k_pair, X> {
    using type = std::pair<int, X>;
};
template <typename X>
struct ret_of<k_bool, X> {
    using type = bool;
};
template <typename X>
struct ret_of<k_void, X> {
    using type = void;
};

#define OS static_cast<std::ostream &>(e.os)
#define SS std::as_const(e.ss)
#define SI std::as_const(e.si)
#define FX std::forward<Q>(x)
#define FY std::forward<Q2>(y)
#define FZ std::forward<Q3>(z)

#define DEF_(nm, AV, CO, KIND, HAS_INT, DFLT, ARGS)                                                                    \
    struct c_##nm {                                                                                                    \
        static constexpr const char *name = #nm;                                                                       \
        static constexpr kind k = KIND;                                                                                \
        static constexpr bool has_int = HAS_INT;                                                                       \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static constexpr bool avail = AV;                                                                              \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static constexpr bool conc = CO;                                                                               \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static constexpr bool dflt = DFLT;                                                                             \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static decltype(auto) call(env &e, Q &&x, [[maybe_unused]] Q2 &&y, [[maybe_unused]] Q3 &&z)                    \
        {                                                                                                              \
            return obake::nm ARGS;                                                                                     \
        }                                                                                                              \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static bool nothrow(env &e, Q &&x, [[maybe_unused]] Q2 &&y, [[maybe_unused]] Q3 &&z)                           \
        {                                                                                                              \
            return noexcept(obake::nm ARGS);                                                                           \
        }                                                                                                              \
        template <typename Q, typename Q2, typename Q3>                                                                \
        static std::vector<arg> args(env &e, Q &&x, [[maybe_unused]] Q2 &&y, [[maybe_unused]] Q3 &&z)                  \
        {                                                                                                              \
            return list ARGS;                                                                                          \
        }                                                                                                              \
        template <typename... A>                                                                                       \
        static std::vector<arg> list(A &&...a)                                                                         \
        {                                                                                                              \
            return {arg_of(std::forward<A>(a))...};                                                                    \
        }                                                                                                              \
    };
#define DEF1(nm, TR, CO, KIND, HAS_INT, DFLT, ARGS)                                                                    \
    DEF_(nm, (obake::TR<Q>), (obake::CO<Q>), KIND, HAS_INT, DFLT, ARGS)
#define DEF2(nm, TR, CO, KIND, HAS_INT, DFLT, ARGS)                                                                    \
    DEF_(nm, (obake::TR<Q, Q2>), (obake::CO<Q, Q2>), KIND, HAS_INT, DFLT, ARGS)
#define DEF3(nm, TR, CO, KIND, HAS_INT, DFLT, ARGS)                                                                    \
    DEF_(nm, (obake::TR<Q, Q2, Q3>), (obake::CO<Q, Q2, Q3>), KIND, HAS_INT, DFLT, ARGS)
#define DEFD(nm, TR, CO, KIND, HAS_INT, DFLT, ARGS)                                                                    \
    DEF_(nm, (obake::TR<Q, double>), (obake::CO<Q, double>), KIND, HAS_INT, DFLT, ARGS)

#if VARIANT == 1
DEF1(cf_stream_insert, is_stream_insertable_cf_v, StreamInsertableCf, k_void, true, false, (OS, FX))
DEF1(cf_tex_stream_insert, is_tex_stream_insertable_cf_v, tex_stream_insertable_cf, k_void, true, false, (OS, FX))
DEF1(tex_stream_insert, is_tex_stream_insertable_v, tex_stream_insertable, k_void, true, false, (OS, FX))
DEF1(byte_size, is_size_measurable_v, SizeMeasurable, k_size, true, true, (FX))
DEF1(hash, is_hashable_v, Hashable, k_size, false, false, (FX))
DEF1(is_zero, is_zero_testable_v, ZeroTestable, k_bool, true, false, (FX))
DEF1(negate, is_negatable_v, Negatable, k_void, true, false, (FX))
DEF1(trim, is_trimmable_v, Trimmable, k_self, true, true, (FX))
DEFD(evaluate, is_evaluable_v, Evaluable, k_int, true, true, (FX, std::as_const(e.sm)))
DEFD(subs, is_substitutable_v, Substitutable, k_int, false, true, (FX, std::as_const(e.sm)))
using cpos = std::tuple<c_cf_stream_insert, c_cf_tex_stream_insert, c_tex_stream_insert, c_byte_size, c_hash, c_is_zero,
                        c_negate, c_trim, c_evaluate, c_subs>;
#elif VARIANT == 2
DEF1(degree, is_with_degree_v, WithDegree, k_int, true, false, (FX))
DEF1(p_degree, is_with_p_degree_v, WithPDegree, k_int, true, false, (FX, SS))
DEF1(diff, is_differentiable_v, Differentiable, k_int, false, false, (FX, std::as_const(e.s)))
DEF1(integrate, is_integrable_v, Integrable, k_int, false, false, (FX, std::as_const(e.s)))
DEF2(pow, is_exponentiable_v, Exponentiable, k_int, true, false, (FX, FY))
DEF3(fma3, is_mult_addable_v, MultAddable, k_void, false, false, (FX, FY, FZ))
DEF2(truncate_degree, is_degree_truncatable_v, DegreeTruncatable, k_void, false, false, (FX, FY))
DEF2(truncate_p_degree, is_p_degree_truncatable_v, PDegreeTruncatable, k_void, false, false, (FX, FY, SS))
DEF_(safe_convert, (obake::is_safely_convertible_v<Q2, Q>), (obake::SafelyConvertible<Q2, Q>), k_bool, false,
     (std::is_assignable_v<Q, Q2>), (FX, FY))
using cpos = std::tuple<c_degree, c_p_degree, c_diff, c_integrate, c_pow, c_fma3, c_truncate_degree, c_truncate_p_degree,
                        c_safe_convert>;
#elif VARIANT == 3
DEF1(key_degree, is_key_with_degree_v, KeyWithDegree, k_int, false, false, (FX, SS))
DEF1(key_p_degree, is_key_with_p_degree_v, KeyWithPDegree, k_int, false, false, (FX, SI, SS))
DEFD(key_evaluate, is_evaluable_key_v, EvaluableKey, k_int, false, false, (FX, std::as_const(e.im), SS))
DEF1(key_is_compatible, is_compatibility_testable_key_v, CompatibilityTestableKey, k_bool, false, false, (FX, SS))
DEF1(key_is_one, is_one_testable_key_v, OneTestableKey, k_bool, false, false, (FX, SS))
DEF1(key_is_zero, is_zero_testable_key_v, ZeroTestableKey, k_bool, false, false, (FX, SS))
DEF1(key_merge_symbols, is_symbols_mergeable_key_v, SymbolsMergeableKey, k_self, false, false,
     (FX, std::as_const(e.ism), SS))
DEF1(key_stream_insert, is_stream_insertable_key_v, StreamInsertableKey, k_void, false, false, (OS, FX, SS))
DEF1(key_tex_stream_insert, is_tex_stream_insertable_key_v, tex_stream_insertable_key, k_void, false, false, (OS, FX, SS))
DEF1(key_trim, is_trimmable_key_v, TrimmableKey, k_self, false, false, (FX, SI, SS))
DEF1(key_trim_identify, is_trim_identifiable_key_v, TrimIdentifiableKey, k_void, false, false, (e.iv, FX, SS))
using cpos = std::tuple<c_key_degree, c_key_p_degree, c_key_evaluate, c_key_is_compatible, c_key_is_one, c_key_is_zero,
                        c_key_merge_symbols, c_key_stream_insert, c_key_tex_stream_insert, c_key_trim,
                        c_key_trim_identify>;
#else
DEF1(monomial_diff, is_differentiable_monomial_v, DifferentiableMonomial, k_pair, false, false,
     (FX, std::as_const(e.idx), SS))
DEF1(monomial_integrate, is_integrable_monomial_v, IntegrableMonomial, k_pair, false, false,
     (FX, std::as_const(e.idx), SS))
DEF3(monomial_mul, is_multipliable_monomial_v, MultipliableMonomial, k_void, false, false, (FX, FY, FZ, SS))
DEF2(monomial_pow, is_exponentiable_monomial_v, ExponentiableMonomial, k_self, false, false, (FX, FY, SS))
DEF2(monomial_range_overflow_check, are_overflow_testable_monomial_ranges_v, OverflowTestableMonomialRanges, k_bool, false,
     false, (FX, FY, SS))
DEFD(monomial_subs, is_substitutable_monomial_v, SubstitutableMonomial, k_pair, false, false,
     (FX, std::as_const(e.im), SS))
using cpos = std::tuple<c_monomial_diff, c_monomial_integrate, c_monomial_mul, c_monomial_pow,
                        c_monomial_range_overflow_check, c_monomial_subs>;
#endif

// The argument type for a value category.
template <typename X, unsigned C>
using qual = std::conditional_t<C == 0, X &,
                                std::conditional_t<C == 1, const X &, std::conditional_t<C == 2, X, const X>>>;

template <typename C>
constexpr bool ret_checked = C::k == k_size || C::k == k_self || C::k == k_pair;

template <typename C, unsigned M, unsigned Cat, bool N, bool R>
void one(pbt::T &t)
{
    using X = ty<M, N, R>;
    using Q = qual<X, Cat>;
    using Q2 = qual<X, (Cat + M + 1u) % 4u>;
    using Q3 = qual<X, (Cat + 2u * M + 2u) % 4u>;
    const int who = (M & 4u) ? 1 : (M & 2u) ? 2 : ((M & 1u) && C::has_int) ? 3 : 0;
    const bool exp_avail = who ? (R || !ret_checked<C>) : C::template dflt<Q, Q2, Q3>;
    constexpr bool av = C::template avail<Q, Q2, Q3>;
    t.nontrivial(M != 0 && M != 4 && M != 2);
    const auto what = pbt::cat(C::name, ", customisations ", M, ", category ", Cat, ", noexcept ", N, ", right return type ",
                               R, ": ");
    PBT_LOG(t, what);
    PBT_CHECK(t, av == exp_avail, what, "available: ", av);
    PBT_CHECK(t, (C::template conc<Q, Q2, Q3>) == exp_avail, what, "concept");
    if constexpr (av) {
        env e;
        e.ss = obake::symbol_set{"x", "y"};
        X x{static_cast<int>(t.below(900))}, y{static_cast<int>(t.below(900))}, z{static_cast<int>(t.below(900))};
        const int xv = x.v, yv = y.v;
        tr = trace_t{};
        long res = 0;
        const auto want_args = C::args(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z));
        using ret = decltype(C::call(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z)));
        const void *ref = nullptr;
        if constexpr (std::is_void_v<ret>) {
            C::call(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z));
        } else if constexpr (std::is_reference_v<ret>) {
            auto &&r = C::call(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z));
            ref = std::addressof(r);
        } else {
            res = result_of(C::call(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z)));
        }
        if (who) {
            PBT_CHECK(t, tr.calls == 1, what, "called ", tr.calls, " times");
            PBT_CHECK(t, tr.who == who, what, "picked ", tr.who, " instead of ", who);
            PBT_CHECK(t, tr.tmpl_ok, what, "template arguments");
            PBT_CHECK(t, tr.args.size() == want_args.size(), what);
            for (std::size_t i = 0; i < want_args.size(); ++i) {
                PBT_CHECK(t, tr.args[i].p == want_args[i].p, what, "argument ", i, " is another object");
                PBT_CHECK(t, tr.args[i].cat == want_args[i].cat, what, "argument ", i, " passed as category ",
                          tr.args[i].cat, " instead of ", want_args[i].cat);
            }
            const bool nx = C::nothrow(e, static_cast<Q &&>(x), static_cast<Q2 &&>(y), static_cast<Q3 &&>(z));
            // Declared noexcept only if what it calls is.
            PBT_CHECK(t, N || !nx, what, "noexcept although the customisation is not");
            if constexpr (std::string_view(C::name) == "negate") {
                PBT_CHECK(t, ref == static_cast<const void *>(&x) && (std::is_same_v<ret, Q &&>), what, "result");
            } else {
                const bool same = std::is_same_v<ret, typename ret_of<C::k, X>::type>;
                PBT_CHECK(t, same, what, "type of the result");
                const long w = C::k == k_void ? 0
                               : C::k == k_bool ? (xv & 1)
                               : C::k == k_pair ? (who * 1000l + xv) * 100000l + xv
                                                : who * 1000l + xv;
                PBT_CHECK(t, res == w, what, "result ", res, " instead of ", w);
            }
        } else {
            PBT_CHECK(t, tr.calls == 0, what, "a customisation was called");
            if constexpr (std::string_view(C::name) == "byte_size") {
                PBT_CHECK(t, res == static_cast<long>(sizeof(X)) && (std::is_same_v<ret, std::size_t>), what);
            } else if constexpr (std::string_view(C::name) == "safe_convert") {
                PBT_CHECK(t, res == 1 && x.v == yv, what);
            } else {
                // The object itself.
                PBT_CHECK(t, res == xv && (std::is_same_v<ret, X>), what);
            }
        }
    }
}

template <typename C, unsigned M>
void pick_rest(pbt::T &t)
{
    const auto cat = t.below(4), nr = t.below(3);
    auto by_cat = [&]<unsigned Cat>() {
        switch (nr) {
            case 0:
                return one<C, M, Cat, false, true>(t);
            case 1:
                return one<C, M, Cat, true, true>(t);
            default:
                return one<C, M, Cat, !ret_checked<C>, !ret_checked<C>>(t);
        }
    };
    switch (cat) {
        case 0:
            return by_cat.template operator()<0>();
        case 1:
            return by_cat.template operator()<1>();
        case 2:
            return by_cat.template operator()<2>();
        default:
            return by_cat.template operator()<3>();
    }
}

template <typename C>
void pick_mask(pbt::T &t)
{
    switch (t.below(8)) {
        case 0:
            return pick_rest<C, 0>(t);
        case 1:
            return pick_rest<C, 1>(t);
        case 2:
            return pick_rest<C, 2>(t);
        case 3:
            return pick_rest<C, 3>(t);
        case 4:
            return pick_rest<C, 4>(t);
        case 5:
            return pick_rest<C, 5>(t);
        case 6:
            return pick_rest<C, 6>(t);
        default:
            return pick_rest<C, 7>(t);
    }
}

} // namespace

PBT_SUB(dispatch, 40000, 1000000,
        "every function that users can customise, with every combination of external, argument-dependent and internal "
        "customisations, every value category of the arguments, noexcept or not, right or wrong return type: availability, "
        "choice, identity and category of every argument, noexcept and result; non-trivial: at least two customisations "
        "or only the internal one")
{
    const auto k = t.below(std::tuple_size_v<cpos>);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == k ? (pick_mask<std::tuple_element_t<I, cpos>>(t), 0) : 0), ...);
    }(std::make_index_sequence<std::tuple_size_v<cpos>>{});
}

#if VARIANT == 3
namespace u06_ns
{
// Only the plain printer.
struct plain_key {
    int v;
};
inline void key_stream_insert(std::ostream &os, const plain_key &k, const obake::symbol_set &ss)
{
    os << "key " << k.v << " of " << ss.size();
}
struct no_key {
};
} // namespace u06_ns

PBT_SUB(tex_default, 2000, 50000,
        "keys without a TeX printer are printed in TeX with the plain printer; non-trivial: always")
{
    t.nontrivial();
    const u06_ns::plain_key k{static_cast<int>(t.sym(1000))};
    obake::symbol_set ss;
    for (std::uint64_t i = 0, n = t.below(4); i < n; ++i) ss.insert(std::string(1, static_cast<char>('a' + i)));
    std::ostringstream o;
    obake::key_tex_stream_insert(o, k, ss);
    PBT_CHECK(t, o.str() == pbt::cat("key ", k.v, " of ", ss.size()), o.str());
    const bool some[] = {obake::is_tex_stream_insertable_key_v<u06_ns::plain_key>,
                         obake::is_tex_stream_insertable_key_v<const u06_ns::plain_key &>,
                         !obake::is_tex_stream_insertable_key_v<u06_ns::no_key>,
                         !obake::is_stream_insertable_key_v<u06_ns::no_key>};
    for (bool b : some) PBT_CHECK(t, b);
}
#endif
