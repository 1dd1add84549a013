// A07: evaluation and substitution are ring homomorphisms that agree with plugging the values into every term.
#include "nest_model.hpp"

#include <obake/math/evaluate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>

#define HUGE_VALUES
#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
using V = rational;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
using V = rational;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint64_t>, double>;
using V = double;
#elif VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint64_t, 2>, integer>;
using V = integer;
#elif VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 4>, integer>;
using V = rational;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
// Negative exponents only where the values can be inverted exactly.
constexpr bool neg_ok = std::is_signed_v<I> && std::is_same_v<V, rational>;
constexpr erange ER{neg_ok ? -2 : 0, 3};

template <typename V>
static V gen_val_impl(pbt::T &t)
{
    if constexpr (std::is_same_v<V, double>) {
        return static_cast<double>(t.sym(2));
    } else if constexpr (std::is_same_v<V, integer>) {
        return t.chance(1, 10) ? integer(t.edgy<long long>()) : integer(t.sym(5));
    } else {
        const auto d = 1 + t.below(4);
        auto n = t.sym(5);
        if (neg_ok && n == 0) n = 1;
        return rational(n, d);
    }
}
static V gen_val(pbt::T &t)
{
    return gen_val_impl<V>(t);
}
static V vpow(const V &v, expo n)
{
    V r(1);
    for (expo i = 0; i < (n < 0 ? -n : n); ++i) r = r * v;
    return n < 0 ? V(V(1) / r) : r;
}
using VR = decltype(std::declval<V>() * std::declval<C>());

static VR meval(const model<C> &m, const std::array<V, NS> &val)
{
    VR r(0);
    for (const auto &p : m) {
        V x(1);
        for (unsigned j = 0; j < NS; ++j) x = x * vpow(val[j], p.first[j]);
        r = r + x * p.second;
    }
    return r;
}
static obake::symbol_map<V> to_map(const std::array<V, NS> &val, mask_t m)
{
    obake::symbol_map<V> r;
    for (unsigned j = 0; j < NS; ++j) {
        if (m & (1u << j)) r.emplace(names[j], val[j]);
    }
    return r;
}

PBT_SUB(evaluate, 60000, 2000000,
        "evaluation with maps that cover the symbols, more than them, or not all of them (invalid_argument), against "
        "term-by-term arithmetic, and evaluation of sums and products; non-trivial: several terms and symbols")
{
    const auto ma = gen_mask(t), mb = gen_mask(t);
    const auto a = gen_poly<P>(t, ma, t.scaled(8), ER), b = gen_poly<P>(t, mb, 4, ER);
    std::array<V, NS> val;
    for (auto &v : val) v = gen_val(t);
    const auto mm = t.below(4) ? (ma | mb | gen_mask(t)) : gen_mask(t);
    auto sm = to_map(val, mm);
    if (t.below(8) == 0) sm.emplace("other", val[0]);
    PBT_LOG(t, "a=", show(a.m), " over ", ma, " values for ", mm);
    for (unsigned j = 0; j < NS; ++j) PBT_LOG(t, "  ", names[j], "=", val[j]);
    t.nontrivial(a.m.size() > 1u && mask_size(ma) > 1u);
    if (ma & ~mm) {
        t.label("symbol missing");
        PBT_THROWS(t, std::invalid_argument, obake::evaluate(a.p, sm), "missing symbol");
        return;
    }
    const VR ea = obake::evaluate(a.p, sm);
    const auto exp = meval(a.m, val);
    PBT_CHECK(t, ea == exp, "got ", ea, " expected ", exp);
    if (!(mb & ~mm)) {
        const VR eb = obake::evaluate(b.p, sm);
        PBT_CHECK(t, obake::evaluate(a.p + b.p, sm) == ea + eb, "sum: b=", show(b.m));
        PBT_CHECK(t, obake::evaluate(a.p * b.p, sm) == ea * eb, "product: b=", show(b.m));
    }
    same(t, a.p, a.m, "operand");
}

PBT_SUB(subs, 40000, 1200000,
        "substitution of numbers for some symbols against term-by-term arithmetic, completed by an evaluation; "
        "non-trivial: some but not all symbols substituted")
{
    const auto ma = gen_mask(t);
    const auto a = gen_poly<P>(t, ma, t.scaled(8), ER);
    std::array<V, NS> val;
    for (auto &v : val) v = gen_val(t);
    const auto ms = gen_mask(t);
    auto sm = to_map(val, ms);
    if (t.below(8) == 0) sm.emplace("other", val[0]);
    PBT_LOG(t, "a=", show(a.m), " over ", ma, " substitute ", ms);
    for (unsigned j = 0; j < NS; ++j) PBT_LOG(t, "  ", names[j], "=", val[j]);
    t.nontrivial((ma & ms) && (ma & ~ms));
    model<VR> exp;
    for (const auto &p : a.m) {
        V x(1);
        auto e = p.first;
        for (unsigned j = 0; j < NS; ++j) {
            if (ms & (1u << j)) {
                x = x * vpow(val[j], e[j]);
                e[j] = 0;
            }
        }
        add_to(exp, e, VR(x * p.second));
    }
    const auto r = obake::subs(a.p, sm);
    PBT_CHECK(t, (std::is_same_v<obake::series_cf_t<std::remove_cvref_t<decltype(r)>>, VR>), "type");
    same(t, r, exp, "subs");
    // Substitute the rest by evaluation.
    const auto all = to_map(val, (1u << NS) - 1u);
    PBT_CHECK(t, obake::evaluate(r, all) == obake::evaluate(a.p, all), "evaluation of the substituted polynomial");
    same(t, a.p, a.m, "operand");
}

PBT_SUB(compose, 8000, 250000,
        "simultaneous substitution of polynomials for symbols (including exchanging symbols), and evaluation at "
        "polynomials, against the model; non-trivial: at least two symbols replaced in a polynomial of several terms")
{
    const auto ma = gen_mask(t);
    auto m = gen_model<C>(t, ma, 4, erange{0, 2});
    if constexpr (std::is_same_v<C, double>) {
        for (auto &p : m) p.second = p.second > 0 ? 1. : -2.;
    }
    const auto a = build<P>(m, ma);
    const auto ms = gen_mask(t);
    std::array<model<C>, NS> val;
    obake::symbol_map<P> sm;
    for (unsigned j = 0; j < NS; ++j) {
        const auto mv = t.below(2) ? (1u << t.below(NS)) : gen_mask(t);
        val[j] = gen_model<C>(t, mv, 2, erange{0, 2});
        for (auto &p : val[j]) p.second = C(static_cast<int>(1 + t.below(3)));
        if (ms & (1u << j)) {
            sm.emplace(names[j], build<P>(val[j], mv));
            PBT_LOG(t, "  ", names[j], " -> ", show(val[j]));
        }
    }
    PBT_LOG(t, "a=", show(m), " over ", ma);
    t.nontrivial(mask_size(ma & ms) > 1u && m.size() > 1u);
    model<C> exp;
    for (const auto &p : m) {
        auto e = p.first;
        auto r = constant(p.second);
        for (unsigned j = 0; j < NS; ++j) {
            if (ms & (1u << j)) {
                r = mul(r, pow(val[j], static_cast<unsigned>(e[j])));
                e[j] = 0;
            }
        }
        model<C> k;
        k.emplace(e, C(1));
        exp = add(exp, mul(r, k));
    }
    same(t, P(obake::subs(a, sm)), exp, "composition");
    if (!(ma & ~ms)) {
        t.label("evaluation");
        same(t, P(obake::evaluate(a, sm)), exp, "evaluation at polynomials");
    } else {
        PBT_THROWS(t, std::invalid_argument, obake::evaluate(a, sm), "missing symbol");
    }
    same(t, a, m, "operand");
}

#if VARIANT == 1 || VARIANT == 3 || VARIANT == 4
// Polynomials with polynomial coefficients: values go to both levels.
#if VARIANT == 4
using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, P>;
#else
using Q = obake::polynomial<K, P>;
#endif
PBT_SUB(nested, 12000, 400000,
        "evaluation of, and substitution of numbers and of polynomials of either rank in, polynomials with polynomial "
        "coefficients whose levels may share symbols, against plugging the values in on both levels; non-trivial: a symbol "
        "of each level, or one of the coefficients only, is replaced")
{
    const erange e{0, 2};
    auto a = gen_nested<Q>(t, gen_mask(t), gen_mask(t), t.scaled(5), 3, e);
    if constexpr (std::is_same_v<C, double>) {
        // Small exact coefficients, and as many terms.
        for (auto &p : a.m) p.second = p.second > 0 ? 1. : -2.;
        Q q;
        q.set_symbol_set(to_ss(a.mo));
        std::map<mono, model<C>> g;
        for (const auto &p : a.m) g[outer(p.first)].emplace(inner(p.first), p.second);
        for (const auto &p : g) q.add_term(make_key<obake::series_key_t<Q>>(p.first, a.mo), build<P>(p.second, a.mi));
        a.q = q;
    }
    mask_t used = 0;
    for (const auto &term : a.q) used |= ss_mask(term.second.get_symbol_set());
    std::array<V, NS> val;
    for (auto &v : val) v = gen_val(t);
    const auto ms = t.below(4) ? gen_mask(t) : (gen_mask(t) & ~a.mo);
    auto sm = to_map(val, ms);
    if (t.below(8) == 0) sm.emplace("other", val[0]);
    PBT_LOG(t, "a=", show(a.m), " over ", a.mo, "/", used, " values for ", ms);
    for (unsigned j = 0; j < NS; ++j) PBT_LOG(t, "  ", names[j], "=", val[j]);
    if ((used & ms) && !(a.mo & ms)) t.label("only in the coefficients");
    t.nontrivial(used & ms);
    // Numbers for some of the symbols.
    nmodel<VR> exp;
    for (const auto &p : a.m) {
        V x(1);
        auto k = p.first;
        for (unsigned j = 0; j < NS; ++j) {
            if (ms & (1u << j)) {
                x = x * vpow(val[j], k[j] + k[NS + j]);
                k[j] = k[NS + j] = 0;
            }
        }
        add_to(exp, k, VR(x * p.second));
    }
    const auto r = t.below(2) ? obake::subs(a.q, sm) : obake::subs(Q(a.q), sm);
    nsame(t, r, exp, "subs");
    // Numbers for all of them.
    const auto miss = (a.mo | used) & ~ms;
    if ((a.mo & ~ms) || (miss && !a.m.empty())) {
        PBT_THROWS(t, std::invalid_argument, obake::evaluate(a.q, sm), "missing symbol");
    } else {
        const VR got = obake::evaluate(a.q, sm);
        VR ex(0);
        for (const auto &p : exp) ex = ex + p.second;
        PBT_CHECK(t, got == ex, "evaluated to ", got, " expected ", ex);
    }
    // Polynomials of the coefficients' kind, then of the same kind, for some of the symbols.
    std::array<nmodel<C>, NS> pv;
    obake::symbol_map<P> sp;
    obake::symbol_map<Q> sq;
    const auto mp = gen_mask(t);
    for (unsigned j = 0; j < NS; ++j) {
        if (!(mp & (1u << j))) continue;
        const auto mv = gen_mask(t);
        auto g = gen_model<C>(t, mv, 2, erange{0, 1});
        for (auto &p : g) p.second = C(static_cast<int>(1 + t.below(3)));
        pv[j] = lift(g);
        sp.emplace(names[j], build<P>(g, mv));
        sq.emplace(names[j], Q(build<P>(g, mv)));
        PBT_LOG(t, "  ", names[j], " -> ", show(g));
    }
    nmodel<C> ep;
    for (const auto &p : a.m) {
        auto k = p.first;
        for (unsigned j = 0; j < NS; ++j) {
            if (mp & (1u << j)) k[j] = k[NS + j] = 0;
        }
        nmodel<C> x;
        x.emplace(k, p.second);
        for (unsigned j = 0; j < NS; ++j) {
            if (!(mp & (1u << j))) continue;
            for (expo n = 0; n < p.first[j] + p.first[NS + j]; ++n) x = mul(x, pv[j]);
        }
        ep = add(ep, x);
    }
    nsame(t, Q(obake::subs(a.q, sp)), ep, "subs of coefficient polynomials");
    // With values of the outer kind what was in the coefficients ends up in the outer level: compare flattened.
    PBT_CHECK(t, flat(to_nmodel(Q(obake::subs(a.q, sq)))) == flat(ep), "subs of polynomials of the same kind");
    nsame(t, a.q, a.m, "operand");
}
#endif

PBT_SUB(huge, 8, 400,
        "polynomials of 15000 to 91125 terms in up to 4096 segments evaluated, and one symbol substituted, so that up to 45 terms "
        "come together; non-trivial: always")
{
    t.nontrivial();
    huge::plug<P, V>(t);
}
