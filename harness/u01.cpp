// U01: integers are rendered as their exact decimal digits, whatever their type.
#include <pbt.hpp>

#include <limits>
#include <sstream>
#include <string>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/detail/limits.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/tex_stream_insert.hpp>

#include "zint.hpp"

using namespace zi;

// Values with many nines and zeros, as well as the usual edges.
template <typename I>
static I gen_dec(pbt::T &t)
{
    if (t.below(3) != 0) return gen<I>(t);
    mpz_class p;
    mpz_ui_pow_ui(p.get_mpz_t(), 10, static_cast<unsigned long>(t.below(39)));
    mpz_class z = p * static_cast<unsigned long>(1 + t.below(9)) + t.sym(3);
    if (t.below(2)) z = -z;
    while (!fits<I>(z)) {
        z /= 10;
        if (z < 0 && !is_neg_type<I>) z = -z;
    }
    return from_z<I>(z);
}

PBT_SUB(digits, 800000, 40000000,
        "values of all the integral types, biased to powers of two and ten and the limits: to_string gives exactly the "
        "digits that GMP gives, and the value is unchanged; non-trivial: at least two digits")
{
    standard::pick(t, [&](auto tg) {
        using I = typename decltype(tg)::type;
        const I x = gen_dec<I>(t);
        const auto want = S(x);
        t.nontrivial(want.size() > 1u);
        I y = x;
        PBT_LOG(t, want, " of ", sizeof(I), " bytes");
        const auto s = obake::detail::to_string(y);
        PBT_CHECK(t, s == want, "got ", s, " for ", want, " in a type of ", sizeof(I), " bytes");
        PBT_CHECK(t, y == x);
        PBT_CHECK(t, std::string(s.c_str()) == want, "embedded null");
    });
}

PBT_SUB(coefficients, 400000, 20000000,
        "the coefficient printers (plain, TeX, coefficient TeX) on all the integral and floating-point types and on big "
        "integers and rationals, after other text in the stream; non-trivial: a 128-bit, big or fractional value")
{
    const std::string before = t.below(2) ? "x = " : "";
    auto plain = [&](const auto &x) {
        std::ostringstream o;
        o << before;
        obake::cf_stream_insert(o, x);
        PBT_CHECK(t, o.good());
        return o.str();
    };
    auto tex = [&](const auto &x) {
        std::ostringstream o;
        o << before;
        obake::tex_stream_insert(o, x);
        return o.str();
    };
    auto cftex = [&](const auto &x) {
        std::ostringstream o;
        o << before;
        obake::cf_tex_stream_insert(o, x);
        return o.str();
    };
    switch (t.below(5)) {
        case 0: // Streamed as the standard stream would.
            list<int, long, short, unsigned, long long, unsigned long long, char, unsigned char, bool>::pick(
                t, [&](auto tg) {
                    using I = typename decltype(tg)::type;
                    const I x = gen<I>(t);
                    std::ostringstream w;
                    w << before << x;
                    PBT_CHECK(t, plain(x) == w.str(), plain(x), " ", w.str());
                    PBT_CHECK(t, tex(x) == w.str());
                    PBT_CHECK(t, cftex(x) == w.str());
                });
            break;
        case 1: {
            list<__int128_t, __uint128_t>::pick(t, [&](auto tg) {
                using I = typename decltype(tg)::type;
                const I x = gen_dec<I>(t);
                t.nontrivial();
                const auto w = before + S(x);
                PBT_CHECK(t, plain(x) == w, "got ", plain(x), " want ", w);
                PBT_CHECK(t, tex(x) == w, "got ", tex(x), " want ", w);
                PBT_CHECK(t, cftex(x) == w, "got ", cftex(x), " want ", w);
                I y = x;
                std::ostringstream o;
                obake::cf_stream_insert(o, y);
                obake::cf_stream_insert(o, std::move(y));
                PBT_CHECK(t, o.str() == S(x) + S(x), o.str());
            });
            break;
        }
        case 2: {
            const double d = static_cast<double>(t.sym(1000000)) / static_cast<double>(1 + t.below(999));
            std::ostringstream w;
            w << before << d;
            PBT_CHECK(t, plain(d) == w.str());
            PBT_CHECK(t, tex(d) == w.str());
            PBT_CHECK(t, cftex(d) == w.str());
            const auto f = static_cast<float>(d);
            std::ostringstream wf;
            wf << before << f;
            PBT_CHECK(t, plain(f) == wf.str());
            break;
        }
        case 3: {
            const __int128_t v = gen_dec<__int128_t>(t);
            const mppp::integer<1> n(v);
            t.nontrivial();
            PBT_CHECK(t, plain(n) == before + S(v));
            PBT_CHECK(t, tex(n) == before + S(v));
            PBT_CHECK(t, cftex(n) == before + S(v));
            break;
        }
        default: {
            const auto a = gen_dec<long long>(t);
            auto b = t.below(3) ? static_cast<long long>(1 + t.below(60)) : gen_dec<long long>(t);
            if (b == 0) b = 1;
            const mppp::rational<1> q{mppp::integer<1>{a}, mppp::integer<1>{b}};
            mpq_class m(Z(a), Z(b));
            m.canonicalize();
            const mpz_class num = abs(m.get_num());
            std::string w = before;
            if (m.get_den() == 1) {
                w += m.get_num().get_str();
            } else {
                t.nontrivial();
                w += std::string(m < 0 ? "-" : "") + "\\frac{" + num.get_str() + "}{" + m.get_den().get_str() + "}";
            }
            PBT_CHECK(t, tex(q) == w, "got ", tex(q), " want ", w);
            PBT_CHECK(t, cftex(q) == w);
            PBT_CHECK(t, plain(q) == before + m.get_str(), "got ", plain(q));
            break;
        }
    }
}

PBT_SUB(limits, 60000, 1000000,
        "the extreme values and the digit counts of all the integral types, and values around them compared with them; "
        "non-trivial: a 128-bit type")
{
    standard::pick(t, [&](auto tg) {
        using I = typename decltype(tg)::type;
        t.nontrivial(sizeof(I) == 16);
        const I mx = obake::detail::limits_max<I>, mn = obake::detail::limits_min<I>;
        PBT_CHECK(t, Z(mx) == zmax<I>(), S(mx));
        PBT_CHECK(t, Z(mn) == zmin<I>(), S(mn));
        const I x = gen<I>(t);
        PBT_CHECK(t, mn <= x && x <= mx);
        const auto dg = obake::detail::limits_digits<I>;
        PBT_CHECK(t, static_cast<unsigned>(dg) == bits_of<I> - (is_neg_type<I> ? 1u : 0u), dg);
        // digits10: the largest d such that every number of d decimal digits is representable.
        mpz_class p = 10;
        int d = 0;
        while (fits<I>(p - 1)) {
            ++d;
            p *= 10;
        }
        PBT_CHECK(t, obake::detail::limits_digits10<I> == d, obake::detail::limits_digits10<I>, " != ", d);
    });
}
