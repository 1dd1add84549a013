// S06: the text of a series denotes the series, in plain and in TeX form.
#include "poly_model.hpp"

#include <iterator>
#include <sstream>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/tex_stream_insert.hpp>
#include <obake/type_name.hpp>

using namespace pm;

#if VARIANT == 1
using K1 = obake::packed_monomial<std::int64_t>;
using K2 = obake::d_packed_monomial<std::int32_t, 2>;
using C = pm::rational;
#else
using K1 = obake::d_packed_monomial<std::uint32_t, 3>;
using K2 = obake::packed_monomial<std::uint64_t>;
using C = pm::integer;
#endif
using P1 = obake::polynomial<K1, C>;
using P2 = obake::polynomial<K2, P1>;
using P3 = obake::polynomial<K1, P2>;
using M = model<rational>;

namespace
{

// A reader for sums of products of numbers, names and bracketed sums. Plain: 3/2*x**-1*(y+1), TeX:
// \frac{3}{2}\frac{1}{{x}}\left({y}+1\right).
struct reader {
    const std::string &s;
    bool tex;
    std::size_t i = 0;
    [[noreturn]] void bad(const char *what) const
    {
        throw pbt::failure{"the text cannot be read (" + std::string(what) + " at " + std::to_string(i) + "): " + s};
    }
    bool at(const char *p) const
    {
        return s.compare(i, std::strlen(p), p) == 0;
    }
    bool take(const char *p)
    {
        if (!at(p)) return false;
        i += std::strlen(p);
        return true;
    }
    void need(const char *p)
    {
        if (!take(p)) bad(p);
    }
    bool digit() const
    {
        return i < s.size() && s[i] >= '0' && s[i] <= '9';
    }
    std::string digits()
    {
        const auto b = i;
        while (digit()) ++i;
        if (b == i) bad("digits");
        return s.substr(b, i - b);
    }
    M number()
    {
        return constant(rational(integer(digits())));
    }
    M inverse(const M &x)
    {
        if (x.size() != 1u) bad("denominator");
        mono e;
        for (unsigned j = 0; j < NS; ++j) e[j] = -x.begin()->first[j];
        return M{{e, rational(1) / x.begin()->second}};
    }
    M power(const M &x, expo n)
    {
        if (x.size() != 1u) bad("power");
        auto e = x.begin()->first;
        for (auto &y : e) y *= n;
        return M{{e, rational(1)}};
    }
    M variable()
    {
        std::size_t best = 0;
        unsigned which = 0;
        for (unsigned j = 0; j < NS; ++j) {
            if (names[j].size() > best && at(names[j].c_str())) {
                best = names[j].size();
                which = j;
            }
        }
        if (!best) bad("name");
        i += best;
        mono e{};
        e[which] = 1;
        return M{{e, rational(1)}};
    }
    M factor()
    {
        if (tex) {
            if (take("\\frac{")) {
                auto n = sum();
                need("}{");
                auto d = sum();
                need("}");
                return mul(n, inverse(d));
            }
            if (take("\\left(")) {
                auto r = sum();
                need("\\right)");
                return r;
            }
            if (take("{")) {
                auto r = variable();
                need("}");
                if (take("^{")) {
                    const bool neg = take("-");
                    const auto n = static_cast<expo>(std::stoll(digits()));
                    need("}");
                    r = power(r, neg ? -n : n);
                }
                return r;
            }
            return number();
        }
        if (take("(")) {
            auto r = sum();
            need(")");
            return r;
        }
        if (digit()) return number();
        auto r = variable();
        if (take("**")) {
            const bool neg = take("-");
            const auto n = static_cast<expo>(std::stoll(digits()));
            r = power(r, neg ? -n : n);
        }
        return r;
    }
    M product()
    {
        auto r = factor();
        while (true) {
            if (tex) {
                if (i >= s.size() || at("+") || at("-") || at("}") || at("\\right)") || at("\\ldots")) return r;
                r = mul(r, factor());
            } else {
                if (at("**")) bad("power of a product");
                if (take("*")) r = mul(r, factor());
                else if (take("/")) r = mul(r, inverse(factor()));
                else return r;
            }
        }
    }
    M sum()
    {
        M r;
        bool neg = take("-");
        while (true) {
            auto x = product();
            r = neg ? sub(r, x) : add(r, x);
            if (take("+")) neg = false;
            else if (take("-")) neg = true;
            else return r;
        }
    }
    M whole()
    {
        auto r = sum();
        if (i != s.size()) bad("end");
        return r;
    }
};

C coefficient(pbt::T &t)
{
    switch (t.below(6)) {
        case 0:
            return C(1);
        case 1:
            return C(-1);
        default:
            return gen_cf<C>(t, true);
    }
}

mono exponents(pbt::T &t, mask_t mask, bool sg)
{
    mono e{};
    for (unsigned j = 0; j < NS; ++j) {
        if (!(mask & (1u << j)) || t.below(3) == 0u) continue;
        e[j] = sg ? t.sym(3) : static_cast<expo>(t.below(4));
    }
    return e;
}

template <typename K>
constexpr bool sgn = std::is_signed_v<typename key_traits<K>::int_t>;

// A polynomial of any rank, and its expansion.
template <typename P>
std::pair<P, M> gen(pbt::T &t, std::size_t nmax)
{
    using K = obake::series_key_t<P>;
    using X = obake::series_cf_t<P>;
    const auto mask = t.below(4) ? gen_mask(t) : 0u;
    std::pair<P, M> r;
    r.first.set_symbol_set(to_ss(mask));
    if (t.below(4) == 0u) r.first.set_n_segments(static_cast<unsigned>(t.below(4)));
    std::set<mono> seen;
    for (auto n = t.below(nmax + 1u); n > 0u; --n) {
        const auto e = exponents(t, mask, sgn<K>);
        if (!seen.insert(e).second) continue;
        M m;
        if constexpr (std::is_same_v<X, C>) {
            const auto c = coefficient(t);
            m = constant(rational(c));
            r.first.add_term(make_key<K>(e, mask), c);
        } else {
            auto c = gen<X>(t, 3);
            if (c.first.empty()) continue;
            m = c.second;
            r.first.add_term(make_key<K>(e, mask), c.first);
        }
        for (const auto &q : m) add_to(r.second, mono_mul(q.first, e), q.second);
    }
    return r;
}

template <typename P>
std::string tail(pbt::T &t, const P &p)
{
    std::ostringstream o;
    o << p;
    std::ostringstream h;
    h << "Key type: " << obake::type_name<obake::series_key_t<P>>() << "\nCoefficient type: " << obake::type_name<obake::series_cf_t<P>>()
      << "\nRank: " << obake::series_rank<P> << "\nSymbol set: " << obake::detail::to_string(p.get_symbol_set())
      << "\nNumber of terms: " << p.size() << "\n";
    const auto s = o.str();
    PBT_CHECK(t, s.compare(0, h.str().size(), h.str()) == 0, "header: ", s);
    return s.substr(h.str().size());
}

template <typename P>
void check(pbt::T &t, std::size_t nmax)
{
    const auto p = gen<P>(t, nmax);
    const auto plain = tail(t, p.first);
    PBT_LOG(t, "plain: ", plain);
    if (p.first.empty()) PBT_CHECK(t, plain == "0");
    {
        reader r{plain, false};
        const auto m = r.whole();
        PBT_CHECK(t, m == p.second, "the text denotes ", show(m), " but the series is ", show(p.second));
    }
    std::ostringstream o;
    obake::tex_stream_insert(o, p.first);
    const auto tex = o.str();
    PBT_LOG(t, "TeX: ", tex);
    {
        reader r{tex, true};
        const auto m = r.whole();
        PBT_CHECK(t, m == p.second, "the TeX text denotes ", show(m), " but the series is ", show(p.second));
    }
    // As a coefficient: brackets around sums.
    for (const bool tx : {false, true}) {
        std::ostringstream c;
        if (tx) obake::cf_tex_stream_insert(c, p.first);
        else obake::cf_stream_insert(c, p.first);
        const std::string whole = c.str() + (tx ? "{x}" : "*x");
        reader r{whole, tx};
        const auto m = r.whole();
        mono x{};
        x[3] = 1;
        PBT_CHECK(t, m == mul(p.second, M{{x, rational(1)}}), "as a coefficient of x: ", whole);
    }
    t.nontrivial(p.second.size() > 1u);
}

} // namespace

PBT_SUB(rank_1, 30000, 1000000,
        "polynomials with numerical coefficients (1 and -1 among them) and positive, zero and negative exponents: both texts are "
        "read back by an independent reader and compared with the polynomial; non-trivial: at least two terms")
{
    check<P1>(t, 12);
}

PBT_SUB(rank_2, 20000, 600000,
        "polynomials whose coefficients are polynomials, single terms, constants and units among them; non-trivial: at least "
        "two terms when expanded")
{
    check<P2>(t, 5);
}

PBT_SUB(rank_3, 20000, 600000,
        "polynomials whose coefficients are polynomials with polynomial coefficients; non-trivial: at least two terms when "
        "expanded")
{
    check<P3>(t, 4);
}

PBT_SUB(keys, 30000, 1000000,
        "single monomials with exponents up to the limits, in both forms; non-trivial: at least two exponents differ from zero")
{
    const auto mask = gen_mask(t);
    auto go = [&]<typename K>(K *) {
        const auto l = key_traits<K>::lims(mask_size(mask));
        mono e{};
        unsigned nz = 0;
        for (unsigned j = 0; j < NS; ++j) {
            if (!(mask & (1u << j))) continue;
            switch (t.below(4)) {
                case 0:
                    break;
                case 1:
                    e[j] = static_cast<expo>(std::min<std::uint64_t>(static_cast<std::uint64_t>(l.second), 1ull << 62)) - static_cast<expo>(t.below(2));
                    break;
                case 2:
                    e[j] = static_cast<expo>(sgn<K> ? std::max<std::int64_t>(static_cast<std::int64_t>(l.first), -(1ll << 62)) : 1);
                    break;
                default:
                    e[j] = sgn<K> ? t.sym(3) : static_cast<expo>(t.below(4));
            }
            nz += e[j] != 0;
        }
        const auto k = make_key<K>(e, mask);
        const M want{{e, rational(1)}};
        std::ostringstream o, q;
        obake::key_stream_insert(o, k, to_ss(mask));
        obake::key_tex_stream_insert(q, k, to_ss(mask));
        const auto a = o.str(), b = q.str();
        PBT_LOG(t, a, "   ", b);
        reader ra{a, false}, rb{b, true};
        PBT_CHECK(t, ra.whole() == want, "plain: ", a);
        PBT_CHECK(t, rb.whole() == want, "TeX: ", b);
        t.nontrivial(nz > 1u);
    };
    if (t.below(2)) go(static_cast<K1 *>(nullptr));
    else go(static_cast<K2 *>(nullptr));
}

PBT_SUB(many_terms, 800, 20000,
        "polynomials around the display limit of 50 terms: the text holds all terms, or the first 50 in iteration order and an "
        "ellipsis; non-trivial: more than 48 terms")
{
    const auto mask = gen_mask(t) | 3u;
    const auto n = t.below(3) ? 45u + t.below(12) : 1u + t.below(200);
    M m;
    P1 p;
    p.set_symbol_set(to_ss(mask));
    if (t.below(2)) p.set_n_segments(static_cast<unsigned>(t.below(4)));
    while (m.size() < n) {
        auto e = exponents(t, mask, sgn<K1>);
        e[0] = static_cast<expo>(m.size() / 3u);
        e[1] = static_cast<expo>(m.size() % 3u);
        const auto c = coefficient(t);
        m.emplace(e, rational(c));
        p.add_term(make_key<K1>(e, mask), c);
    }
    M first;
    std::size_t k = 0;
    for (const auto &term : p) {
        if (k++ == 50u) break;
        const auto v = key_traits<K1>::unpack(term.first, mask_size(mask));
        mono e{};
        for (unsigned j = 0, x = 0; j < NS; ++j) {
            if (mask & (1u << j)) e[j] = static_cast<expo>(v[x++]);
        }
        first.emplace(e, rational(term.second));
    }
    std::ostringstream o;
    obake::tex_stream_insert(o, p);
    for (const bool tx : {false, true}) {
        auto s = tx ? o.str() : tail(t, p);
        const std::string dots = tx ? "+\\ldots" : "+...";
        if (n > 50u) {
            PBT_CHECK(t, s.size() > dots.size() && s.compare(s.size() - dots.size(), dots.size(), dots) == 0, "no ellipsis: ", s);
            s.resize(s.size() - dots.size());
        }
        reader r{s, tx};
        const auto got = r.whole();
        PBT_CHECK(t, got == first, "text of ", n, " terms denotes ", show(got));
    }
    t.nontrivial(n > 48u);
    t.label(n > 50u ? "ellipsis" : "all terms");
}

#if VARIANT == 1
// A coefficient type whose text may begin and end with brackets that do not belong together.
namespace
{
struct frac {
    rational v;
    frac() = default;
    explicit frac(int n) : v(n) {}
    explicit frac(const rational &x) : v(x) {}
    frac operator-() const
    {
        return frac(rational(-v));
    }
    friend frac operator+(const frac &a, const frac &b)
    {
        return frac(rational(a.v + b.v));
    }
    frac &operator+=(const frac &o)
    {
        v = v + o.v;
        return *this;
    }
    frac &operator-=(const frac &o)
    {
        v = v - o.v;
        return *this;
    }
    friend bool operator==(const frac &a, const frac &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const frac &a, const frac &b)
    {
        return !(a.v == b.v);
    }
    friend bool is_zero(const frac &a)
    {
        return a.v == rational(0);
    }
    friend std::ostream &operator<<(std::ostream &os, const frac &a)
    {
        const auto n = a.v.get_num(), d = a.v.get_den();
        if (d == integer(2)) return os << "(" << n << ")"; // (half)
        if (d == integer(3)) return os << "((" << n << ")/(" << d << "))";
        if (d == integer(4)) return os << "(" << n << "-1)/(" << d << ")+(1/" << d << ")";
        return os << "(" << n << ")/(" << d << ")";
    }
};
} // namespace

PBT_SUB(bracketed, 20000, 400000,
        "series whose coefficients have a user-defined text that begins and ends with brackets, belonging together or not: the "
        "text of each coefficient survives, except for one pair of brackets around all of it when it stands alone; non-trivial: a "
        "term with an unitary key whose brackets do not belong together")
{
    using S = obake::series<K1, frac, obake::polynomials::tag>;
    S p;
    const auto mask = gen_mask(t);
    p.set_symbol_set(to_ss(mask));
    const auto e = t.below(2) ? mono{} : exponents(t, mask, true);
    const rational c(static_cast<long>(t.sym(5)), 1u + t.below(6));
    if (c == rational(0)) return;
    p.add_term(make_key<K1>(e, mask), frac(c));
    std::ostringstream o;
    o << frac(c);
    auto want = o.str();
    const bool unit = e == mono{};
    if (unit) {
        if (c.get_den() == integer(2) || c.get_den() == integer(3)) want = want.substr(1, want.size() - 2u);
        else t.nontrivial();
    } else {
        std::ostringstream k;
        obake::key_stream_insert(k, make_key<K1>(e, mask), to_ss(mask));
        want += "*" + k.str();
    }
    const auto got = tail(t, p);
    PBT_CHECK(t, got == want, "text ", got, ", expected ", want);
}
#endif
