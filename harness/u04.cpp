// U04: safe conversions are exact or refused.
#include <pbt.hpp>

#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/type_name.hpp>

#include "zint.hpp"

using namespace zi;

using all_ints = list<int, long long, short, signed char, char, long, unsigned, unsigned long, unsigned long long,
                      unsigned short, unsigned char, __int128_t, __uint128_t, bool, wchar_t, char16_t, char32_t, char8_t>;

namespace pbt::detail
{
template <>
struct uns<wchar_t> {
    using type = std::make_unsigned_t<wchar_t>;
};
} // namespace pbt::detail

namespace
{

// Types known only here, to see which conversion is chosen.
struct box {
    std::string s;
};
} // namespace

namespace u04_ns
{
struct adl_from {
    int v;
};
struct adl_to {
    int v = -1;
};
// Found by argument-dependent lookup; refuses negatives.
inline bool safe_convert(adl_to &x, const adl_from &y)
{
    if (y.v < 0) return false;
    x.v = y.v;
    return true;
}
struct ext_from {
    int v;
};
inline bool safe_convert(adl_to &x, const ext_from &)
{
    x.v = 777;
    return true;
}
inline int safe_convert(obake::customisation::safe_convert_t, adl_to &x, const ext_from &y)
{
    // Any type convertible to bool will do.
    if (y.v % 2) return 0;
    x.v = y.v + 1;
    return 42;
}
struct no_conv {
};
struct no_default {
    explicit no_default(int) {}
};
inline bool safe_convert(no_default &, int)
{
    return true;
}
} // namespace u04_ns

namespace
{

// A value near the limits of To, if there is one of type From.
template <typename From, typename To>
From gen_near(pbt::T &t)
{
    if (t.below(2)) {
        const mpz_class z = (t.below(2) ? zmax<To>() : zmin<To>()) + t.sym(2);
        if (fits<From>(z)) return from_z<From>(z);
    }
    return gen<From>(t);
}

template <typename From, typename To>
void one(pbt::T &t)
{
    const From x = gen_near<From, To>(t);
    const To old = gen<To>(t);
    To out = old;
    const bool ok = fits<To>(Z(x));
    t.nontrivial(!std::is_same_v<From, To> && !(x == From(0)));
    t.label(ok ? "exact" : "refused");
    From y = x;
    const auto r = obake::safe_convert(out, y);
    PBT_CHECK(t, y == x);
    PBT_CHECK(t, (std::is_same_v<decltype(r), const bool>), "type");
    PBT_CHECK(t, r == ok, S(x), " from ", bits_of<From>, " bits to ", bits_of<To>, is_neg_type<To> ? " signed" : " unsigned",
              " bits");
    if (ok) {
        PBT_CHECK(t, Z(out) == Z(x), "got ", S(out), " for ", S(x));
    } else {
        PBT_CHECK(t, out == old, "the target changed although the conversion of ", S(x), " was refused");
    }
    try {
        const To z = obake::safe_cast<To>(x);
        PBT_CHECK(t, ok && Z(z) == Z(x), "cast of ", S(x), " gave ", S(z));
    } catch (const obake::safe_cast_failure &e) {
        PBT_CHECK(t, !ok, "cast of ", S(x), " refused: ", e.what());
        const std::invalid_argument &ia = e;
        const std::string m = ia.what();
        PBT_CHECK(t, m.find("'" + obake::type_name<To>() + "'") != std::string::npos, m);
        PBT_CHECK(t, m.find("'" + obake::type_name<const From &>() + "'") != std::string::npos, m);
    }
}

mppp::integer<1> big(const mpz_class &z)
{
    return mppp::integer<1>(z.get_str());
}

mpz_class gen_big(pbt::T &t)
{
    mpz_class z;
    switch (t.below(3)) {
        case 0:
            return t.sym(20);
        case 1:
            all_ints::pick(t, [&](auto tg) {
                using I = typename decltype(tg)::type;
                z = (t.below(2) ? zmax<I>() : zmin<I>()) + t.sym(2);
            });
            return z;
        default: {
            const auto n = 1 + t.below(4);
            for (std::uint64_t i = 0; i < n; ++i) {
                z <<= 64;
                z += Z(t.raw64());
            }
            return t.below(2) ? mpz_class(-z) : z;
        }
    }
}

} // namespace

PBT_SUB(integrals, 2000000, 60000000,
        "values of all 18 integral types converted to all others, biased to the limits of the target plus or minus two: "
        "converted exactly when representable, otherwise refused with the target untouched; a cast throws instead; "
        "non-trivial: different types, nonzero value")
{
    all_ints::pick(t, [&](auto a) {
        using From = typename decltype(a)::type;
        all_ints::pick(t, [&](auto b) { one<From, typename decltype(b)::type>(t); });
    });
}

PBT_SUB(big_numbers, 400000, 12000000,
        "conversions between all the integral types, big integers and rationals (integral or not): exact or refused; "
        "non-trivial: a value beyond 64 bits or a fraction")
{
    const auto z = gen_big(t);
    const auto n = big(z);
    const long den = t.below(2) ? 1 : static_cast<long>(1 + t.below(6));
    mpq_class mq(z, den);
    mq.canonicalize();
    const mppp::rational<1> q(mq.get_str());
    const bool integral = mq.get_den() == 1;
    t.nontrivial(abs(z) > mpz_class("18446744073709551615") || !integral);
    // To machine integers.
    all_ints::pick(t, [&](auto tg) {
        using I = typename decltype(tg)::type;
        // mp++ converts to bool by comparing with zero, and does not convert to the character types.
        if constexpr (std::is_same_v<I, bool> || std::is_same_v<I, wchar_t> || std::is_same_v<I, char16_t> || std::is_same_v<I, char32_t>
                      || std::is_same_v<I, char8_t>) {
            return;
        } else {
            const I old = gen<I>(t);
            I out = old;
            const bool ok = fits<I>(z);
            PBT_CHECK(t, obake::safe_convert(out, n) == ok, z.get_str());
            PBT_CHECK(t, Z(out) == (ok ? z : Z(old)), "integer ", z.get_str(), " gave ", S(out));
            out = old;
            const mpz_class num = mq.get_num();
            const bool okq = integral && fits<I>(num);
            PBT_CHECK(t, obake::safe_convert(out, q) == okq, mq.get_str());
            PBT_CHECK(t, Z(out) == (okq ? num : Z(old)), "rational ", mq.get_str(), " gave ", S(out));
            if (okq) {
                PBT_CHECK(t, Z(obake::safe_cast<I>(q)) == num);
            } else {
                PBT_THROWS(t, obake::safe_cast_failure, obake::safe_cast<I>(q), mq.get_str());
            }
            // And back.
            const I x = gen<I>(t);
            mppp::integer<1> m(5);
            PBT_CHECK(t, obake::safe_convert(m, x) && m == big(Z(x)));
            mppp::rational<1> p(5);
            PBT_CHECK(t, obake::safe_convert(p, x) && p == mppp::rational<1>(big(Z(x))));
        }
    });
    // Between the two.
    mppp::integer<1> out(77);
    PBT_CHECK(t, obake::safe_convert(out, q) == integral, mq.get_str());
    PBT_CHECK(t, out == (integral ? big(mq.get_num()) : mppp::integer<1>(77)), mq.get_str());
    mppp::rational<1> qo(77);
    PBT_CHECK(t, obake::safe_convert(qo, n) && qo == mppp::rational<1>(n));
    // And to itself.
    mppp::integer<1> n2(77);
    mppp::rational<1> q2(77);
    PBT_CHECK(t, obake::safe_convert(n2, n) && n2 == n);
    PBT_CHECK(t, obake::safe_convert(q2, q) && q2 == q);
    PBT_CHECK(t, obake::safe_cast<mppp::rational<1>>(q) == q);
}

PBT_SUB(other_types, 100000, 2000000,
        "types with their own conversion, by argument-dependent lookup or by the external customisation point, types without "
        "one, and types converted to themselves: the right one is used, with its verdict; non-trivial: nonzero value")
{
    using namespace u04_ns;
    const int v = t.edgy<int>() / 2;
    t.nontrivial(v != 0);
    adl_to o;
    PBT_CHECK(t, obake::safe_convert(o, adl_from{v}) == (v >= 0));
    PBT_CHECK(t, o.v == (v >= 0 ? v : -1));
    adl_to e;
    PBT_CHECK(t, obake::safe_convert(e, ext_from{v}) == (v % 2 == 0), v);
    PBT_CHECK(t, e.v == (v % 2 ? -1 : v + 1), e.v);
    if (v < 0) {
        PBT_THROWS(t, obake::safe_cast_failure, obake::safe_cast<adl_to>(adl_from{v}));
    } else {
        PBT_CHECK(t, obake::safe_cast<adl_to>(adl_from{v}).v == v);
    }
    // The same type: plain assignment, copying or moving.
    const std::string s(20 + t.below(20), 'x');
    std::string src(s), dst("old");
    PBT_CHECK(t, obake::safe_convert(dst, src) && dst == s && src == s);
    dst = "old";
    const char *data = src.data();
    PBT_CHECK(t, obake::safe_convert(dst, std::move(src)) && dst == s && dst.data() == data, "not moved");
    PBT_CHECK(t, obake::safe_cast<std::string>(s) == s);
    const double d = static_cast<double>(v) / 7;
    double dd = 0;
    PBT_CHECK(t, obake::safe_convert(dd, d) && dd == d);
    // What is possible at all.
    const bool yes[] = {obake::is_safely_convertible_v<int, long &>, obake::is_safely_convertible_v<__int128_t, bool &>,
                        obake::is_safely_convertible_v<const int &, int &>,
                        obake::is_safely_convertible_v<mppp::integer<1>, int &>,
                        obake::is_safely_convertible_v<int, mppp::integer<1> &>,
                        obake::is_safely_convertible_v<mppp::rational<1>, int &>,
                        obake::is_safely_convertible_v<mppp::rational<1>, mppp::integer<1> &>,
                        obake::is_safely_convertible_v<adl_from, adl_to &>,
                        obake::is_safely_convertible_v<ext_from, adl_to &>,
                        obake::is_safely_convertible_v<std::string, std::string &>,
                        obake::is_safely_convertible_v<int, no_default &>, obake::is_safely_castable_v<int, short>,
                        obake::is_safely_castable_v<adl_from, adl_to>, obake::is_safely_castable_v<double, double>,
                        obake::SafelyConvertible<int, long &>, obake::SafelyCastable<int, short>};
    int i = 0;
    for (bool b : yes) {
        PBT_CHECK(t, b, "conversion ", i, " should exist");
        ++i;
    }
    const bool no[] = {obake::is_safely_convertible_v<int, const long &>, obake::is_safely_convertible_v<int, long>,
                       obake::is_safely_convertible_v<double, int &>, obake::is_safely_convertible_v<int, double &>,
                       obake::is_safely_convertible_v<float, double &>, obake::is_safely_convertible_v<no_conv, int &>,
                       obake::is_safely_convertible_v<mppp::integer<1>, const int &>,
                       obake::is_safely_convertible_v<std::string, int &>, obake::is_safely_convertible_v<void, int &>,
                       obake::is_safely_castable_v<int, no_default>, obake::is_safely_castable_v<double, int>,
                       obake::is_safely_castable_v<int, void>, obake::is_safely_castable_v<void, int>,
                       obake::is_safely_castable_v<no_conv, int>, obake::SafelyConvertible<double, int &>,
                       obake::SafelyCastable<int, double>};
    i = 0;
    for (bool b : no) {
        PBT_CHECK(t, !b, "conversion ", i, " should not exist");
        ++i;
    }
}
