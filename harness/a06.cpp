// A06: differentiation and integration agree with the calculus rules term by term.
#include "poly_model.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>

#define HUGE_CALCULUS
#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint64_t>, double>;
#elif VARIANT == 4
// The coefficient type changes: the general algorithm.
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, int>;
#elif VARIANT == 5
using P = obake::polynomial<obake::d_packed_monomial<std::uint32_t, 2>, rational>;
#elif VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, rational>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;

using D = std::remove_cvref_t<decltype(obake::diff(std::declval<const P &>(), std::string()))>;
using DC = obake::series_cf_t<D>;

static std::string gen_sym(pbt::T &t)
{
    static const std::vector<std::string> other = {"0", "aa", "zz", ""};
    return t.below(8) ? names[t.below(NS)] : t.pick(other);
}
static unsigned idx(const std::string &s)
{
    for (unsigned i = 0; i < NS; ++i) {
        if (names[i] == s) return i;
    }
    return NS;
}

template <typename R>
static model<R> mdiff(const model<R> &m, unsigned j)
{
    model<R> r;
    for (const auto &p : m) {
        if (j == NS || p.first[j] == 0) continue;
        auto e = p.first;
        --e[j];
        add_to(r, e, static_cast<R>(p.second * static_cast<R>(p.first[j])));
    }
    return r;
}

PBT_SUB(diff, 60000, 2000000,
        "derivatives in symbols inside and outside the symbol set against term-by-term differentiation, repeated in "
        "another order, and the product rule; non-trivial: the derivative is not zero")
{
    const auto mask = gen_mask(t);
    const auto a = gen_poly<P>(t, mask, t.scaled(10), erange{sg ? -3 : 0, 4});
    const auto s = gen_sym(t);
    const auto j = idx(s);
    PBT_LOG(t, "d/d", s, " of ", show(a.m), " over ", mask);
    const auto c = convert<DC>(a.m);
    const auto exp = mdiff(c, j);
    t.nontrivial(!exp.empty());
    const bool mv = t.below(2);
    const D d = mv ? obake::diff(P(a.p), s) : obake::diff(a.p, s);
    same(t, d, exp, "derivative");
    same(t, a.p, a.m, "operand");
    // Mixed second derivatives.
    const auto s2 = gen_sym(t);
    same(t, obake::diff(d, s2), mdiff(exp, idx(s2)), "second derivative");
#if VARIANT != 4
    {
        PBT_CHECK(t, obake::diff(obake::diff(a.p, s2), s) == obake::diff(d, s2), "mixed derivatives differ");
        const auto b = gen_poly<P>(t, gen_mask(t), 4, erange{0, 3});
        same(t, P(obake::diff(P(a.p * b.p), s)), add(mul(exp, b.m), mul(a.m, mdiff(b.m, j))), "product rule");
    }
#endif
}

#if VARIANT != 4
PBT_SUB(integ, 60000, 2000000,
        "integrals in symbols inside and outside the symbol set against term-by-term integration, the derivative of the "
        "integral, and the logarithmic terms that must be refused; non-trivial: several terms")
{
    const auto mask = gen_mask(t);
    const auto a = gen_poly<P>(t, mask, t.scaled(10), erange{sg ? -3 : 0, 4});
    auto s = gen_sym(t);
    auto j = idx(s);
    if (j == NS) {
        s = "x";
        j = sym_idx(s);
    }
    PBT_LOG(t, "integral in ", s, " of ", show(a.m), " over ", mask);
    t.nontrivial(a.m.size() > 1u);
    t.label((mask & (1u << j)) ? "symbol present" : "symbol added");
    bool logt = false;
    model<C> exp;
    for (const auto &p : a.m) {
        if (p.first[j] == -1) {
            logt = true;
            continue;
        }
        auto e = p.first;
        ++e[j];
        const C q = p.second / static_cast<C>(p.first[j] + 1);
        if (!czero(q)) exp.emplace(e, q);
    }
    if (logt) {
        t.label("logarithm");
        PBT_THROWS(t, std::domain_error, obake::integrate(a.p, s), "a logarithm");
    } else {
        const bool mv = t.below(2);
        const P r = mv ? obake::integrate(P(a.p), s) : obake::integrate(a.p, s);
        same(t, r, exp, "integral");
        PBT_CHECK(t, r.get_symbol_set() == to_ss(mask | (1u << j)), "symbol set of the integral");
        if constexpr (!std::is_same_v<C, integer> && !std::is_same_v<C, double>) {
            same(t, P(obake::diff(r, s)), a.m, "derivative of the integral");
        }
    }
    same(t, a.p, a.m, "operand");
}
#endif

#if VARIANT == 1 || VARIANT == 5
// Polynomials whose coefficients are polynomials, possibly in the same symbols.
using Q = obake::polynomial<K, P>;
static model<C> flat(const Q &q)
{
    model<C> r;
    const auto &ss = q.get_symbol_set();
    for (const auto &term : q) {
        const auto v = key_traits<K>::unpack(term.first, static_cast<unsigned>(ss.size()));
        mono m{};
        unsigned i = 0;
        for (const auto &s : ss) m[sym_idx(s)] = static_cast<expo>(v[i++]);
        if (term.second.empty()) throw pbt::failure{"a zero coefficient is stored"};
        for (const auto &p : to_model(term.second)) add_to(r, mono_mul(m, p.first), p.second);
    }
    return r;
}
PBT_SUB(nested, 20000, 600000,
        "derivatives and integrals of polynomials with polynomial coefficients against the flattened polynomial; "
        "integration is refused when a coefficient depends on the symbol; non-trivial: a nonzero derivative")
{
    const auto mo = gen_mask(t), mi = gen_mask(t);
    Q q;
    q.set_symbol_set(to_ss(mo));
    const auto outer = gen_model<rational>(t, mo, 4, erange{sg ? -2 : 0, 2});
    for (const auto &p : outer) {
        q.add_term(make_key<K>(p.first, mo), gen_poly<P>(t, mi, 3, erange{sg ? -2 : 0, 2}).p);
    }
    const auto f = flat(q);
    const auto s = gen_sym(t);
    const auto j = idx(s);
    PBT_LOG(t, "outer ", mo, " inner ", mi, " flat ", show(f), " symbol ", s);
    const auto exp = mdiff(f, j);
    t.nontrivial(!exp.empty());
    const auto r = flat(obake::diff(q, s));
    PBT_CHECK(t, r == exp, "derivative: ", show(r), " expected ", show(exp));
    // Only the outer monomials may depend on the symbol of integration.
    bool dep = false, logt = false;
    for (const auto &term : q) {
        if (!mdiff(to_model(term.second), j).empty()) dep = true;
    }
    for (const auto &term : q) {
        const auto v = key_traits<K>::unpack(term.first, mask_size(mo));
        unsigned i = 0;
        for (unsigned k = 0; k < NS; ++k) {
            if (!(mo & (1u << k))) continue;
            if (k == j && static_cast<expo>(v[i]) == -1) logt = true;
            ++i;
        }
    }
    if (dep && !logt) {
        t.label("coefficient depends on the symbol");
        PBT_THROWS(t, std::invalid_argument, obake::integrate(q, s), "dependent coefficient");
    } else if (!dep && !logt && j != NS) {
        const auto g = flat(obake::integrate(q, s));
        PBT_CHECK(t, mdiff(g, j) == f, "integral: ", show(g));
        for (const auto &p : g) PBT_CHECK(t, p.first[j] != 0, "a constant of integration: ", show(g));
    }
}
#endif

PBT_SUB(huge, 8, 400,
        "derivatives, and derivatives of integrals, of polynomials of 15000 to 91125 terms in up to 4096 segments; non-trivial: "
        "always")
{
    t.nontrivial();
    huge::calculus<P>(t);
}
