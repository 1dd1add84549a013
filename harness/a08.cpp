// A08: degrees and truncations. A09: symbols (trim, filter, add_symbols, make_polynomials).
#include "nest_model.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

#define HUGE_DEGREES
#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint32_t>, double>;
#elif VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint64_t, 2>, integer>;
#elif VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, rational>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;
constexpr erange ER{sg ? -4 : 0, 5};
constexpr mask_t ALL = (1u << NS) - 1u;

#if VARIANT == 1 || VARIANT == 3 || VARIANT == 21
using Q = obake::polynomial<K, P>;
#else
using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, P>;
#endif

#if !defined(SYMS)
static obake::symbol_set gen_sub_ss(pbt::T &t, mask_t &m)
{
    m = gen_mask(t);
    auto ss = to_ss(m);
    if (t.below(6) == 0) ss.insert("other");
    if (t.below(6) == 0) ss.insert("");
    return ss;
}

PBT_SUB(degree, 60000, 2000000,
        "total and partial degrees (over symbol sets with foreign symbols) against the maximum over the terms, zero for "
        "the zero polynomial; degree of a product over the rationals; non-trivial: several terms and symbols")
{
    const auto ma = gen_mask(t);
    const auto a = gen_poly<P>(t, ma, t.scaled(12), ER);
    mask_t ms;
    const auto ss = gen_sub_ss(t, ms);
    PBT_LOG(t, "a=", show(a.m), " over ", ma, " partial ", ms);
    t.nontrivial(a.m.size() > 1u && mask_size(ma) > 1u);
    expo d = 0, pd = 0;
    bool first = true;
    for (const auto &p : a.m) {
        d = first ? tdeg(p.first) : std::max(d, tdeg(p.first));
        pd = first ? tdeg(p.first, ms) : std::max(pd, tdeg(p.first, ms));
        first = false;
    }
    const auto rd = obake::degree(a.p);
    PBT_CHECK(t, static_cast<expo>(rd) == d, "degree ", rd, " expected ", d);
    const auto rp = obake::p_degree(a.p, ss);
    PBT_CHECK(t, static_cast<expo>(rp) == pd, "partial degree ", rp, " expected ", pd);
    PBT_CHECK(t, obake::degree(P(a.p)) == rd, "degree of an rvalue");
    const auto b = gen_poly<P>(t, gen_mask(t), 4, ER);
    if (!a.m.empty() && !b.m.empty()) {
        PBT_CHECK(t, obake::degree(a.p * b.p) == obake::degree(a.p) + obake::degree(b.p), "degree of a product: b=", show(b.m));
    }
    same(t, a.p, a.m, "operand");
}

PBT_SUB(truncate, 60000, 2000000,
        "total and partial degree truncation (limits of several types, below, among and above the degrees) against "
        "filtering the model; idempotence; the complement; non-trivial: some but not all terms are removed")
{
    const auto ma = gen_mask(t);
    const auto a = gen_poly<P>(t, ma, t.scaled(12), ER);
    mask_t ms;
    const auto ss = gen_sub_ss(t, ms);
    const bool partial = t.below(2);
    const auto lim = sg ? t.sym(12) : static_cast<expo>(t.below(16));
    PBT_LOG(t, "a=", show(a.m), " over ", ma, partial ? " partial " : " total ", ms, " limit ", lim);
    model<C> exp;
    for (const auto &p : a.m) {
        if (tdeg(p.first, partial ? ms : ALL) <= lim) exp.insert(p);
    }
    t.nontrivial(!exp.empty() && exp.size() != a.m.size());
    P r(a.p);
    auto run = [&](const auto &l) {
        if (partial) {
            obake::truncate_p_degree(r, l, ss);
        } else {
            obake::truncate_degree(r, l);
        }
    };
    switch (t.below(4)) {
        case 0:
            if (sg) run(static_cast<int>(lim));
            else run(static_cast<unsigned>(lim));
            break;
        case 1:
            if (sg) run(static_cast<long long>(lim));
            else run(static_cast<unsigned long long>(lim));
            break;
        case 2:
            run(integer(lim));
            break;
        default:
            run(rational(2 * lim + 1, 2));
    }
    same(t, r, exp, "truncation");
    PBT_CHECK(t, r.get_symbol_set() == to_ss(ma), "symbol set");
    const P once(r);
    run(integer(lim));
    same(t, r, exp, "second truncation");
    PBT_CHECK(t, once == r, "idempotence");
    // Terms can still be added to and found in the truncated polynomial.
    r += a.p;
    same(t, r, add(exp, a.m), "sum with the truncation");
    same(t, a.p, a.m, "operand");
}

PBT_SUB(nested_degree, 20000, 600000,
        "total and partial degrees of polynomials with polynomial coefficients (the levels may share symbols): the largest "
        "sum of the degrees of a term and of its coefficient, and the degree of products; non-trivial: a symbol of both "
        "levels counts")
{
    const auto a = gen_nested<Q>(t, gen_mask(t), gen_mask(t), t.scaled(6), 3, ER);
    mask_t ms;
    const auto ss = gen_sub_ss(t, ms);
    PBT_LOG(t, "a=", show(a.m), " partial ", ms);
    t.nontrivial((a.mo & ms) && (a.mi & ms) && a.q.size() > 1u);
    expo d = 0, pd = 0;
    bool first = true;
    for (const auto &p : a.m) {
        const auto x = tdeg(outer(p.first)) + tdeg(inner(p.first)),
                   y = tdeg(outer(p.first), ms) + tdeg(inner(p.first), ms);
        d = first ? x : std::max(d, x);
        pd = first ? y : std::max(pd, y);
        first = false;
    }
    const auto rd = obake::degree(a.q);
    PBT_CHECK(t, static_cast<expo>(rd) == d, "degree ", rd, " expected ", d);
    const auto rp = obake::p_degree(a.q, ss);
    PBT_CHECK(t, static_cast<expo>(rp) == pd, "partial degree ", rp, " expected ", pd);
    const auto b = gen_nested<Q>(t, gen_mask(t), gen_mask(t), 3, 2, ER);
    if (!a.m.empty() && !b.m.empty()) {
        PBT_CHECK(t, obake::degree(a.q * b.q) == obake::degree(a.q) + obake::degree(b.q), "degree of a product");
    }
    nsame(t, a.q, a.m, "operand");
}
#else
PBT_SUB(trim, 60000, 2000000,
        "trimming against dropping the symbols that occur in no term: the value is unchanged, the symbol set is minimal, "
        "and adding symbols undoes it; non-trivial: some but not all symbols are dropped")
{
    const auto ma = gen_mask(t);
    const auto use = t.below(2) ? gen_mask(t) & ma : ma;
    const auto m = gen_model<C>(t, use, t.scaled(10), ER);
    const auto a = build<P>(m, ma, static_cast<unsigned>(t.below(4)));
    mask_t used = 0;
    for (const auto &p : m) {
        for (unsigned j = 0; j < NS; ++j) {
            if (p.first[j] != 0) used |= 1u << j;
        }
    }
    PBT_LOG(t, "a=", show(m), " over ", ma);
    t.nontrivial(used && used != ma);
    const auto r = obake::trim(a);
    same(t, r, m, "trim");
    PBT_CHECK(t, r.get_symbol_set() == to_ss(used), "the trimmed symbol set is ", ss_mask(r.get_symbol_set()), " expected ", used);
    PBT_CHECK(t, r == a, "comparison with the original");
    const auto extra = gen_mask(t);
    const auto s = obake::add_symbols(r, to_ss(extra));
    same(t, s, m, "add_symbols");
    PBT_CHECK(t, s.get_symbol_set() == to_ss(used | extra), "the extended symbol set");
    PBT_CHECK(t, s == a, "comparison with the original");
    same(t, a, m, "operand");
    PBT_CHECK(t, a.get_symbol_set() == to_ss(ma), "symbol set of the operand");
}

PBT_SUB(filter, 40000, 1200000,
        "filter / filtered with predicates on keys and coefficients against filtering the model, then more terms added; "
        "non-trivial: some but not all terms are kept")
{
    const auto ma = gen_mask(t);
    auto a = gen_poly<P>(t, ma, t.scaled(20), ER);
    const auto bits = t.raw64();
    auto keep = [&](const mono &e, const C &c) {
        std::uint64_t h = 0;
        for (auto x : e) h = h * 7u + static_cast<std::uint64_t>(x);
        h += c > C(0);
        return ((bits >> (h % 64u)) & 1u) != 0u;
    };
    model<C> exp;
    for (const auto &p : a.m) {
        if (keep(p.first, p.second)) exp.insert(p);
    }
    t.nontrivial(!exp.empty() && exp.size() != a.m.size());
    PBT_LOG(t, "a=", show(a.m), " kept ", show(exp));
    std::size_t calls = 0;
    std::vector<unsigned> idx;
    for (const auto &s : a.p.get_symbol_set()) idx.push_back(sym_idx(s));
    auto pred = [&](const auto &term) {
        const auto v = key_traits<K>::unpack(term.first, mask_size(ma));
        mono e{};
        for (std::size_t i = 0; i < v.size(); ++i) e[idx[i]] = static_cast<expo>(v[i]);
        ++calls;
        return keep(e, term.second);
    };
    const auto f = obake::filtered(a.p, pred);
    same(t, f, exp, "filtered");
    PBT_CHECK(t, f.get_symbol_set() == a.p.get_symbol_set(), "symbol set");
    PBT_CHECK(t, calls == a.m.size(), "the predicate was called ", calls, " times for ", a.m.size(), " terms");
    same(t, a.p, a.m, "operand");
    P g(a.p);
    obake::filter(g, pred);
    same(t, g, exp, "filter");
    PBT_CHECK(t, f == g, "filtered differs from filter");
    g -= a.p;
    same(t, g, sub(exp, a.m), "difference with the filtered");
    for (const auto &p : exp) g.add_term(make_key<K>(p.first, ma), p.second);
    same(t, g, add(sub(exp, a.m), exp), "terms added after filtering");
}

PBT_SUB(make, 20000, 500000,
        "make_polynomials with and without a symbol set: every generator is the one-term polynomial in its symbol, "
        "duplicates allowed, a foreign generator is refused; non-trivial: a symbol set of several symbols")
{
    const auto n0 = names[t.below(NS)], n1 = names[t.below(NS)], n2 = names[t.below(NS)];
    auto gen = [](const std::string &n) {
        model<C> m;
        mono e{};
        e[sym_idx(n)] = 1;
        m.emplace(e, C(1));
        return m;
    };
    const auto ps = obake::make_polynomials<P>(n0, n1.c_str(), n2);
    static_assert(std::tuple_size_v<std::remove_cvref_t<decltype(ps)>> == 3u);
    same(t, ps[0], gen(n0), "first");
    same(t, ps[1], gen(n1), "second");
    same(t, ps[2], gen(n2), "third");
    PBT_CHECK(t, ps[1].get_symbol_set() == obake::symbol_set{n1}, "symbol set");
    const auto m = gen_mask(t);
    const auto need = (1u << sym_idx(n0)) | (1u << sym_idx(n1)) | (1u << sym_idx(n2));
    t.nontrivial(mask_size(m) > 1u);
    PBT_LOG(t, n0, " ", n1, " ", n2, " symbol set ", m);
    if (need & ~m) {
        t.label("foreign generator");
        PBT_THROWS(t, std::invalid_argument, obake::make_polynomials<P>(to_ss(m), n0, n1, n2), "foreign generator");
    } else {
        const auto qs = obake::make_polynomials<P>(to_ss(m), n0, n1, n2.c_str());
        same(t, qs[0], gen(n0), "first");
        same(t, qs[1], gen(n1), "second");
        same(t, qs[2], gen(n2), "third");
        for (const auto &q : qs) PBT_CHECK(t, q.get_symbol_set() == to_ss(m), "symbol set");
        PBT_CHECK(t, qs[0] == ps[0] && qs[1] == ps[1] && qs[2] == ps[2], "the two forms differ");
    }
}

PBT_SUB(nested, 20000, 600000,
        "trimming, filtering and adding symbols to polynomials with polynomial coefficients: both levels are trimmed, each "
        "coefficient to its own symbols; filters see whole terms; non-trivial: both levels have unused symbols")
{
    const auto mo = gen_mask(t), mi = gen_mask(t);
    auto a = gen_nested<Q>(t, gen_mask(t) & mo, mi, t.scaled(6), 3, ER);
    a.q = obake::add_symbols(a.q, to_ss(mo));
    nsame(t, a.q, a.m, "added symbols");
    std::map<mono, mask_t> own;
    mask_t used = 0, iused = 0, had = 0;
    for (const auto &term : a.q) had |= ss_mask(term.second.get_symbol_set());
    for (const auto &p : a.m) {
        own[outer(p.first)];
        for (unsigned j = 0; j < NS; ++j) {
            if (p.first[j] != 0) used |= 1u << j;
            if (p.first[NS + j] != 0) {
                iused |= 1u << j;
                own[outer(p.first)] |= 1u << j;
            }
        }
    }
    PBT_LOG(t, "a=", show(a.m), " over ", mo, "/", mi);
    t.nontrivial(used != mo && iused != had);
    const auto r = obake::trim(a.q);
    nsame(t, r, a.m, "trim");
    PBT_CHECK(t, r.get_symbol_set() == to_ss(used), "the trimmed symbol set is ", ss_mask(r.get_symbol_set()), " expected ", used);
    for (const auto &term : r) {
        const auto v = key_traits<obake::series_key_t<Q>>::unpack(term.first, mask_size(used));
        mono o{};
        unsigned i = 0;
        for (const auto &s : r.get_symbol_set()) o[sym_idx(s)] = static_cast<expo>(v[i++]);
        PBT_CHECK(t, ss_mask(term.second.get_symbol_set()) == own[o], "symbol set of the coefficient of ", show(o));
    }
    PBT_CHECK(t, r == a.q && a.q == r, "comparison with the original");
    PBT_CHECK(t, obake::trim(r) == r, "trimmed twice");
    nsame(t, a.q, a.m, "operand");
    // Keep the terms whose coefficient has a given number of terms.
    const auto n = 1u + t.below(3);
    nmodel<C> exp;
    for (const auto &p : a.m) {
        std::size_t c = 0;
        for (const auto &q : a.m) c += outer(q.first) == outer(p.first);
        if (c >= n) exp.insert(p);
    }
    Q g(a.q);
    obake::filter(g, [n](const auto &term) { return term.second.size() >= n; });
    nsame(t, g, exp, "filter");
    nsame(t, Q(obake::filtered(a.q, [n](const auto &term) { return term.second.size() >= n; })), exp, "filtered");
    nsame(t, a.q, a.m, "operand");
}
#endif

#if defined(SYMS)
PBT_SUB(huge, 8, 400,
        "filters, trimming and added symbols for polynomials of 15000 to 91125 terms in up to 4096 segments; non-trivial: always")
{
    t.nontrivial();
    huge::reshape<P>(t);
}
#else
PBT_SUB(huge, 8, 400,
        "total and partial degrees and truncations of polynomials of 15000 to 91125 terms in up to 4096 segments; non-trivial: "
        "always")
{
    t.nontrivial();
    huge::degrees<P>(t);
}
#endif
