// K04: polynomials over a user's own monomial type are polynomials, whatever its hash.
#include "umono.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

using namespace pm;

using K = um::umono<VARIANT>;
#if VARIANT == 1 || VARIANT == 4
using C = integer;
#else
using C = rational;
#endif
using P = obake::polynomial<K, C>;
constexpr bool ranged = VARIANT == 3 || VARIANT == 4;
constexpr mask_t ALL = (1u << NS) - 1u;

static bool too_big(const model<C> &a, const model<C> &b)
{
    if (!ranged || a.empty() || b.empty()) return false;
    for (unsigned j = 0; j < NS; ++j) {
        auto x = a.begin()->first[j], y = b.begin()->first[j];
        for (const auto &p : a) x = std::max(x, p.first[j]);
        for (const auto &p : b) y = std::max(y, p.first[j]);
        if (x + y > um::top) return true;
    }
    return false;
}
// Big keys make small polynomials take the parallel algorithm.
static bool heavy(pbt::T &t)
{
    static const std::vector<std::size_t> w = {64, 64, 3000, 20000, 100000};
    um::weight = t.pick(w);
    return um::weight > 64u;
}
static void diffs(pbt::T &t, const P &r, const model<C> &exp, const std::string &what)
{
    const auto g = to_model(r);
    if (g == exp) return;
    if (g.size() + exp.size() < 60u) same(t, r, exp, what);
    std::string d;
    unsigned n = 0;
    for (const auto &p : exp) {
        auto it = g.find(p.first);
        if (it == g.end() && ++n < 6u) d += " missing " + show(p.first);
        if (it != g.end() && !(it->second == p.second) && ++n < 6u) d += " wrong coefficient of " + show(p.first);
    }
    for (const auto &p : g) {
        if (!exp.count(p.first) && ++n < 6u) d += " extra " + show(p.first);
    }
    t.fail(pbt::cat(what, ": ", n, " terms differ:", d));
}

PBT_SUB(algebra, 20000, 600000,
        "a history of 1 to 6 operations (sum, difference, product, truncated product, scalar product, power, negation; in "
        "place and with every value category) on two polynomials over a user's monomial type, the size of which is drawn so "
        "that small operands take the parallel algorithm as well; every result compared with the model, a refused product "
        "exactly when the type's range check says so; non-trivial: a product of several terms by several")
{
    const bool par = heavy(t);
    // Some exponents near the limit of the range check.
    const erange e{-2, ranged && t.below(4) == 0u ? 22 : 5};
    auto a = gen_poly<P>(t, gen_mask(t), t.scaled(10), e);
    auto b = gen_poly<P>(t, gen_mask(t), t.scaled(10), e);
    PBT_LOG(t, "a=", show(a.m), " over ", a.mask, "  b=", show(b.m), " over ", b.mask, "  bytes of a key ", um::weight.load());
    const auto steps = 1u + t.below(6);
    for (std::uint64_t s = 0; s < steps; ++s) {
        model<C> exp;
        P r;
        mask_t em = a.mask | b.mask;
        bool sym = true;
        const auto cat = t.below(4);
        auto bin = [&](auto f) {
            P ca(a.p), cb(b.p);
            if (cat == 0u) return P(f(std::as_const(a.p), std::as_const(b.p)));
            if (cat == 1u) return P(f(std::move(ca), std::as_const(b.p)));
            if (cat == 2u) return P(f(std::as_const(a.p), std::move(cb)));
            return P(f(std::move(ca), std::move(cb)));
        };
        const auto op = t.below(10);
        switch (op) {
            case 0:
                PBT_LOG(t, "a + b");
                exp = add(a.m, b.m);
                r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); });
                break;
            case 1:
                PBT_LOG(t, "a - b");
                exp = sub(a.m, b.m);
                r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); });
                break;
            case 2:
                PBT_LOG(t, "a += b, a -= b");
                r = a.p;
                if (cat & 1u) {
                    exp = add(a.m, b.m);
                    r += b.p;
                } else {
                    exp = sub(a.m, b.m);
                    r -= P(b.p);
                }
                break;
            case 3:
            case 4:
            case 5: {
                PBT_LOG(t, "a * b");
                if (a.m.size() > 300u) continue;
                if (too_big(a.m, b.m)) {
                    t.label("refused");
                    PBT_THROWS(t, std::overflow_error, a.p * b.p, "the range check said no");
                    same(t, a.p, a.m, "operand");
                    same(t, b.p, b.m, "operand");
                    continue;
                }
                exp = mul(a.m, b.m);
                t.nontrivial(a.m.size() > 2u && b.m.size() > 2u);
                const auto before = um::range_checks.load();
                if (op == 5) {
                    r = a.p;
                    r *= b.p;
                } else {
                    r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); });
                }
                if (ranged && !a.m.empty() && !b.m.empty()) {
                    PBT_CHECK(t, um::range_checks.load() != before, "the range check of the type was not consulted");
                }
                if (par && r.get_s_size()) t.label("segmented product");
                break;
            }
            case 6: {
                if (a.m.size() > 300u) continue;
                if (too_big(a.m, b.m)) continue;
                const auto full = mul(a.m, b.m);
                const auto limit = t.sym(12);
                const bool partial = t.below(2);
                const auto pm_ = partial ? gen_mask(t) : ALL;
                for (const auto &p : full) {
                    if (tdeg(p.first, pm_) <= limit) exp.insert(p);
                }
                PBT_LOG(t, "truncated a * b, limit ", limit, " in ", pm_);
                if (partial) r = obake::polynomials::truncated_mul(a.p, b.p, limit, to_ss(pm_));
                else r = obake::polynomials::truncated_mul(a.p, b.p, limit);
                t.label(par ? "truncated (heavy keys)" : "truncated");
                break;
            }
            case 7: {
                const auto c = gen_cf<C>(t);
                PBT_LOG(t, "scalar ", c);
                em = a.mask;
                sym = false;
                exp = mul(a.m, constant(c));
                r = cat & 1u ? P(a.p * c) : P(c * P(a.p));
                break;
            }
            case 8: {
                const auto n = static_cast<unsigned>(t.below(4));
                if (a.m.size() > 8u) continue;
                bool big = false;
                auto acc = constant(C(1));
                for (unsigned i = 0; i < n; ++i) {
                    big = big || (i && too_big(acc, a.m));
                    acc = mul(acc, a.m);
                }
                if (big && a.m.size() != 1u) continue;
                PBT_LOG(t, "a**", n);
                exp = acc;
                sym = false;
                r = obake::pow(a.p, n);
                break;
            }
            default:
                PBT_LOG(t, "-a");
                em = a.mask;
                exp = neg(a.m);
                r = cat & 1u ? P(-a.p) : P(-P(a.p));
        }
        same(t, a.p, a.m, "operand");
        same(t, b.p, b.m, "operand");
        diffs(t, r, exp, "result");
        if (sym) PBT_CHECK(t, r.get_symbol_set() == to_ss(em), "symbol set of the result");
        PBT_CHECK(t, r == build<P>(exp, ss_mask(r.get_symbol_set()), static_cast<unsigned>(t.below(4))), "comparison");
        // Go on with the result.
        if (exp.size() < 40u && t.below(2)) {
            auto &z = t.below(2) ? a : b;
            z.mask = ss_mask(r.get_symbol_set());
            z.m = exp;
            z.p = t.below(2) ? r : std::move(r);
        }
    }
}

PBT_SUB(large, 200, 8000,
        "products, also truncated, of up to 400 by 400 terms over a user's monomial type with keys of different sizes "
        "(from one to many table segments), in both orders; non-trivial: at least 1000 products of terms")
{
    heavy(t);
    const auto ma = gen_mask(t) | 9u, mb = t.below(2) ? ma : (gen_mask(t) | 6u);
    const erange e{t.below(2) ? -4 : 0, 1 + static_cast<expo>(t.below(10))};
    const auto na = 1u + t.below(120), nb = 1u + t.below(400);
    auto gen = [&](mask_t mask, std::uint64_t n) {
        model<C> r;
        for (std::uint64_t i = 0; i < n; ++i) {
            auto z = t.raw64();
            mono m{};
            for (unsigned j = 0; j < NS; ++j) {
                if (!(mask & (1u << j))) continue;
                const auto span = static_cast<std::uint64_t>(e.hi - e.lo + 1);
                m[j] = e.lo + static_cast<expo>(z % span);
                z /= span;
            }
            r[m] = C(static_cast<int>(z % 9u) - 4 ? static_cast<int>(z % 9u) - 4 : 7);
        }
        return r;
    };
    const auto a = gen(ma, na), b = gen(mb, nb);
    const auto pa = build<P>(a, ma, static_cast<unsigned>(t.below(4))), pb = build<P>(b, mb, static_cast<unsigned>(t.below(4)));
    PBT_LOG(t, a.size(), " terms over ", ma, ", ", b.size(), " terms over ", mb, ", bytes of a key ", um::weight.load());
    const auto exp = mul(a, b);
    t.nontrivial(a.size() * b.size() >= 1000u);
    const auto r = pa * pb;
    t.label(pbt::cat("log2 segments ", r.get_s_size()));
    diffs(t, r, exp, "product");
    const bool partial = t.below(2);
    const auto pmask = partial ? gen_mask(t) : ALL;
    const auto limit = t.sym(30);
    model<C> cutm;
    for (const auto &p : exp) {
        if (tdeg(p.first, pmask) <= limit) cutm.insert(p);
    }
    if (partial) diffs(t, obake::polynomials::truncated_mul(pb, pa, limit, to_ss(pmask)), cutm, "partially truncated product");
    else diffs(t, obake::polynomials::truncated_mul(pb, pa, limit), cutm, "truncated product");
}

PBT_SUB(calculus, 30000, 900000,
        "derivatives, integrals, substitution, evaluation, degrees, truncation, trimming, added symbols and filters over a "
        "user's monomial type against the model; non-trivial: several terms in several symbols")
{
    um::weight = 64;
    const auto ma = gen_mask(t);
    const auto a = gen_poly<P>(t, ma, t.scaled(10), erange{-2, 4});
    const auto ms = gen_mask(t);
    const auto j = static_cast<unsigned>(t.below(NS));
    PBT_LOG(t, "a=", show(a.m), " over ", ma, " symbols ", ms, " symbol ", names[j]);
    t.nontrivial(a.m.size() > 1u && mask_size(ma) > 1u);
    const bool mv = t.below(2);
    model<C> exp;
    switch (t.below(8)) {
        case 0: {
            for (const auto &p : a.m) {
                auto e = p.first;
                if (e[j] == 0) continue;
                --e[j];
                add_to(exp, e, C(p.second * C(p.first[j])));
            }
            same(t, P(mv ? obake::diff(P(a.p), names[j]) : obake::diff(a.p, names[j])), exp, "derivative");
            break;
        }
        case 1: {
            bool logt = false;
            for (const auto &p : a.m) {
                auto e = p.first;
                if (e[j] == -1) {
                    logt = true;
                    continue;
                }
                ++e[j];
                const C c = p.second / C(e[j]);
                if (!czero(c)) add_to(exp, e, c);
            }
            if (logt) {
                PBT_THROWS(t, std::domain_error, obake::integrate(a.p, names[j]), "a logarithm");
            } else {
                same(t, P(mv ? obake::integrate(P(a.p), names[j]) : obake::integrate(a.p, names[j])), exp, "integral");
            }
            break;
        }
        case 2:
        case 3: {
            std::array<rational, NS> val;
            obake::symbol_map<rational> all, some;
            for (unsigned i = 0; i < NS; ++i) {
                const auto n = t.sym(4);
                val[i] = rational(n ? n : 5, static_cast<int>(1 + t.below(3)));
                all.emplace(names[i], val[i]);
                if (ms & (1u << i)) some.emplace(names[i], val[i]);
            }
            if (t.below(4) == 0u) some.emplace("other", rational(3));
            auto vpow = [](const rational &v, expo n) {
                rational r(1);
                for (expo i = 0; i < (n < 0 ? -n : n); ++i) r = r * v;
                return n < 0 ? rational(rational(1) / r) : r;
            };
            rational ev(0);
            model<rational> ex2;
            for (const auto &p : a.m) {
                rational x(p.second), y(p.second);
                auto e = p.first;
                for (unsigned i = 0; i < NS; ++i) {
                    x = x * vpow(val[i], e[i]);
                    if (ms & (1u << i)) {
                        y = y * vpow(val[i], e[i]);
                        e[i] = 0;
                    }
                }
                ev = ev + x;
                add_to(ex2, e, y);
            }
            PBT_CHECK(t, rational(obake::evaluate(a.p, all)) == ev, "evaluation");
            const auto r = obake::subs(a.p, some);
            same(t, r, ex2, "substitution");
            PBT_CHECK(t, rational(obake::evaluate(r, all)) == ev, "evaluation of the substituted polynomial");
            if (ma & ~ms) PBT_THROWS(t, std::invalid_argument, obake::evaluate(a.p, some), "a symbol without a value");
            break;
        }
        case 4: {
            expo d = 0, pd = 0;
            bool first = true;
            for (const auto &p : a.m) {
                d = first ? tdeg(p.first) : std::max(d, tdeg(p.first));
                pd = first ? tdeg(p.first, ms) : std::max(pd, tdeg(p.first, ms));
                first = false;
            }
            auto ss = to_ss(ms);
            if (t.below(4) == 0u) ss.insert("other");
            PBT_CHECK(t, obake::degree(a.p) == d, "degree");
            PBT_CHECK(t, obake::p_degree(a.p, ss) == pd, "partial degree");
            break;
        }
        case 5: {
            const auto limit = t.sym(8);
            const bool partial = t.below(2);
            for (const auto &p : a.m) {
                if (tdeg(p.first, partial ? ms : ALL) <= limit) exp.insert(p);
            }
            P r(a.p);
            if (partial) obake::truncate_p_degree(r, limit, to_ss(ms));
            else obake::truncate_degree(r, limit);
            same(t, r, exp, "truncation");
            r += a.p;
            same(t, r, add(exp, a.m), "sum with the truncation");
            break;
        }
        case 6: {
            mask_t used = 0;
            for (const auto &p : a.m) {
                for (unsigned i = 0; i < NS; ++i) used |= p.first[i] ? 1u << i : 0u;
            }
            const P r = mv ? obake::trim(P(a.p)) : obake::trim(a.p);
            same(t, r, a.m, "trim");
            PBT_CHECK(t, r.get_symbol_set() == to_ss(used), "the trimmed symbol set");
            const P s = obake::add_symbols(r, to_ss(ms));
            same(t, s, a.m, "add_symbols");
            PBT_CHECK(t, s.get_symbol_set() == to_ss(used | ms), "the extended symbol set");
            PBT_CHECK(t, s == a.p && r == a.p && s == r, "equality with unused symbols");
            break;
        }
        default: {
            const auto n = t.below(3);
            for (const auto &p : a.m) {
                if ((p.first[j] & 1) == static_cast<expo>(n & 1u)) exp.insert(p);
            }
            if (!(ma & (1u << j))) break;
            unsigned pos = 0;
            for (const auto &s : a.p.get_symbol_set()) {
                if (s == names[j]) break;
                ++pos;
            }
            const auto f = obake::filtered(a.p, [&](const auto &term) { return (term.first.e[pos] & 1) == static_cast<expo>(n & 1u); });
            same(t, f, exp, "filter");
        }
    }
    same(t, a.p, a.m, "operand");
}

PBT_SUB(generators, 5000, 100000,
        "make_polynomials over a user's monomial type with and without a symbol set; non-trivial: several symbols")
{
    const auto m = gen_mask(t) | 1u;
    const auto ss = to_ss(m);
    t.nontrivial(mask_size(m) > 1u);
    std::vector<unsigned> in;
    for (unsigned j = 0; j < NS; ++j) {
        if (m & (1u << j)) in.push_back(j);
    }
    const auto i = in[t.below(in.size())], k = in[t.below(in.size())];
    auto gen = [](unsigned j) {
        model<C> r;
        mono e{};
        e[j] = 1;
        r.emplace(e, C(1));
        return r;
    };
    const auto [x, y] = obake::make_polynomials<P>(ss, names[i], names[k]);
    same(t, x, gen(i), "generator");
    same(t, y, gen(k), "generator");
    PBT_CHECK(t, x.get_symbol_set() == ss && y.get_symbol_set() == ss, "symbol set");
    const auto [z] = obake::make_polynomials<P>(names[i]);
    same(t, z, gen(i), "generator");
    PBT_CHECK(t, z.get_symbol_set() == to_ss(1u << i), "symbol set");
    same(t, P(x * y + z), add(mul(gen(i), gen(k)), gen(i)), "arithmetic on generators");
}
