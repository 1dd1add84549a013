// W02: setting, removing, reading and applying truncations; generators; comparison and streaming of power series.
#include "ps_model.hpp"

#include <sstream>

#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/tex_stream_insert.hpp>

#if VARIANT == 1
using P = obake::p_series<obake::packed_monomial<std::int64_t>, pm::rational>;
#elif VARIANT == 2
using P = obake::p_series<obake::d_packed_monomial<std::int32_t, 2>, double>;
#elif VARIANT == 3
using P = obake::p_series<obake::d_packed_monomial<std::uint32_t, 3>, pm::integer>;
#endif

using namespace ps;
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;

PBT_SUB(policy, 50000, 2000000,
        "a history of set_truncation (degrees of several types, representable or not), unset_truncation, truncate, direct "
        "insertions, truncation at a degree, copies, moves, swaps and clearings, against the model; non-trivial: a truncation "
        "removes some but not all terms")
{
    const erange e{sg ? -2 : 0, 4};
    auto a = gen_ser<P>(t, t.scaled(16), e, gen_trunc(t, sg));
    PBT_LOG(t, "a=", show(a.m), " [", show(a.tr), "] over ", a.mask);
    const auto steps = 1u + t.below(6);
    for (std::uint64_t s = 0; s < steps; ++s) {
        const auto old = a.m;
        switch (t.below(9)) {
            case 0:
            case 1:
            case 2: {
                auto tr = gen_trunc(t, sg);
                if (tr.kind == 0) tr.kind = 1;
                const auto w = t.below(4);
                PBT_LOG(t, "set ", show(tr), " as ", w);
                auto set = [&](const auto &d) {
                    P &r = tr.kind == 1 ? obake::set_truncation(a.p, d) : obake::set_truncation(a.p, d, tr_ss(tr.syms));
                    PBT_CHECK(t, &r == &a.p);
                };
                if (w == 0u) set(static_cast<I>(tr.d));
                else if (w == 1u) set(static_cast<int>(tr.d));
                else if (w == 2u) set(integer(tr.d));
                else set(static_cast<signed char>(tr.d));
                a.tr = tr;
                a.m = cut(a.m, tr);
                t.nontrivial(!a.m.empty() && a.m.size() < old.size());
                break;
            }
            case 3: {
                // Degrees that the degree type cannot represent.
                const auto lo = integer(std::numeric_limits<I>::min()), hi = integer(std::numeric_limits<I>::max());
                const integer d = t.below(2) ? integer(hi + integer(1 + static_cast<long>(t.below(3))))
                                             : integer(lo - integer(1 + static_cast<long>(t.below(3))));
                PBT_LOG(t, "set ", d);
                if (t.below(2)) {
                    PBT_THROWS(t, obake::safe_cast_failure, obake::set_truncation(a.p, d));
                } else {
                    PBT_THROWS(t, obake::safe_cast_failure, obake::set_truncation(a.p, d, tr_ss(3)));
                }
                t.label("unrepresentable");
                break;
            }
            case 4: {
                PBT_CHECK(t, &obake::unset_truncation(a.p) == &a.p);
                a.tr = trunc_t{};
                break;
            }
            case 5: {
                const auto extra = gen_model<C>(t, a.mask, 6, e);
                PBT_LOG(t, "insert ", show(extra));
                for (const auto &q : extra) {
                    a.p.add_term(make_key<K>(q.first, a.mask), q.second);
                    add_to(a.m, q.first, q.second);
                }
                // Nothing is removed before truncate().
                same(t, a.p, a.m, a.tr, "before truncate()");
                const auto all = a.m;
                obake::truncate(a.p);
                a.m = cut(a.m, a.tr);
                t.nontrivial(!a.m.empty() && a.m.size() < all.size());
                break;
            }
            case 6: {
                // Leaves the policy alone.
                const auto d = static_cast<I>(t.below(9));
                if (t.below(2)) {
                    obake::truncate_degree(a.p, d);
                    a.m = cut(a.m, trunc_t{1, static_cast<expo>(d), 0});
                } else {
                    const auto syms = gen_mask(t) | (t.below(4) ? 0u : foreign);
                    obake::truncate_p_degree(a.p, d, tr_ss(syms));
                    a.m = cut(a.m, trunc_t{2, static_cast<expo>(d), syms});
                }
                t.label("truncate at a degree");
                break;
            }
            case 7: {
                P c(a.p);
                PBT_CHECK(t, c == a.p && !(c != a.p));
                if (t.below(2)) {
                    c.clear_terms();
                    same(t, c, {}, a.tr, "after clear_terms()");
                    PBT_CHECK(t, ss_mask(c.get_symbol_set()) == a.mask);
                } else {
                    c.clear();
                    same(t, c, {}, trunc_t{}, "after clear()");
                    PBT_CHECK(t, c.get_symbol_set().empty());
                }
                break;
            }
            default: {
                P c(a.p), d;
                d = std::move(c);
                P f(std::move(d));
                using std::swap;
                P g;
                obake::set_truncation(g, 3);
                swap(f, g);
                same(t, f, {}, trunc_t{1, 3, 0}, "swapped");
                a.p = std::move(g);
            }
        }
        PBT_LOG(t, "-> ", show(a.m), " [", show(a.tr), "]");
        same(t, a.p, a.m, a.tr, "result");
        PBT_CHECK(t, ss_mask(a.p.get_symbol_set()) == a.mask, "symbol set");
        if (!a.m.empty()) {
            expo mx = tdeg(a.m.begin()->first), pmx = 0;
            const auto syms = gen_mask(t);
            bool first = true;
            for (const auto &q : a.m) {
                mx = std::max(mx, tdeg(q.first));
                const auto x = tdeg(q.first, syms);
                pmx = first ? x : std::max(pmx, x);
                first = false;
            }
            PBT_CHECK(t, static_cast<expo>(obake::degree(a.p)) == mx, "degree");
            PBT_CHECK(t, static_cast<expo>(obake::p_degree(a.p, to_ss(syms))) == pmx, "partial degree");
        }
    }
}

PBT_SUB(tags, 30000, 1000000,
        "two series with generated, often equal, terms and truncations: equality, hashes of the tags, size in bytes, streams in "
        "plain and TeX form, against the model; non-trivial: the terms are equal")
{
    const auto ta = gen_trunc(t, sg, 5);
    auto tb = ta;
    switch (t.below(4)) {
        case 0:
            break;
        case 1:
            tb = gen_trunc(t, sg, 5);
            break;
        case 2:
            if (tb.kind) tb.kind = 3 - tb.kind;
            break;
        default:
            tb.syms ^= 1u << t.below(NS + 1u);
    }
    const erange e{sg ? -1 : 0, 3};
    const auto mask = gen_mask(t), mask2 = t.below(2) ? mask : (mask | gen_mask(t));
    const auto base = gen_model<C>(t, mask, 6, e);
    auto mk = [&](const trunc_t &tr, mask_t m) {
        ser<P> r;
        r.p = build<P>(base, m, static_cast<unsigned>(t.below(3)));
        set_tr(r.p, tr);
        r.m = cut(base, tr);
        r.mask = m;
        r.tr = tr;
        return r;
    };
    const auto a = mk(ta, mask), b = mk(tb, mask2);
    PBT_LOG(t, "a=", show(a.m), " [", show(ta), "]  b=", show(b.m), " [", show(tb), "]");
    const bool eq = a.m == b.m && ta == tb;
    PBT_CHECK(t, (a.p == b.p) == eq && (b.p == a.p) == eq && (a.p != b.p) == !eq, "equality");
    PBT_CHECK(t, (a.p.tag() == b.p.tag()) == (ta == tb) && (a.p.tag() != b.p.tag()) == !(ta == tb), "equality of the tags");
    if (ta == tb) {
        PBT_CHECK(t, obake::hash(a.p.tag()) == obake::hash(b.p.tag()), "hash of equal tags");
    }
    PBT_CHECK(t, obake::byte_size(a.p) >= sizeof(P) + a.m.size() * sizeof(C));
    t.nontrivial(a.m == b.m);
    t.label(eq ? "equal" : (a.m == b.m ? "truncations differ" : "terms differ"));
    for (const auto *x : {&a, &b}) {
        std::ostringstream o;
        if (t.below(3) == 0u) o << std::showpos;
        const bool pos = (o.flags() & std::ios_base::showpos) != 0;
        o << x->p;
        const auto num = (pos && sg && x->tr.d >= 0 ? "+" : "") + std::to_string(x->tr.d);
        std::string want = "Series type: power series\n";
        if (x->tr.kind == 0) want += "Truncation: none";
        else if (x->tr.kind == 1) want += "Truncation degree: " + num;
        else want += "Partial truncation degree: " + num + ", " + obake::detail::to_string(tr_ss(x->tr.syms));
        want += "\n";
        PBT_CHECK(t, o.str().compare(0, want.size(), want) == 0, "stream:\n", o.str(), "\nexpected to begin with\n", want);
        std::ostringstream o1, o2;
        obake::tex_stream_insert(o1, x->p);
        P y(x->p);
        obake::unset_truncation(y);
        obake::tex_stream_insert(o2, y);
        want = o2.str();
        if (x->tr.kind) {
            want += " + \\mathcal{O}\\left( > " + std::to_string(x->tr.d);
            if (x->tr.kind == 2) {
                want += " ; ";
                bool first = true;
                for (const auto &n : tr_ss(x->tr.syms)) {
                    if (!first) want += ", ";
                    first = false;
                    want += n;
                }
            }
            want += " \\right)";
        }
        PBT_CHECK(t, o1.str() == want, "TeX stream: ", o1.str(), "  expected ", want);
    }
}

PBT_SUB(generators, 20000, 400000,
        "generators over their own or a given symbol set, without or with a total or partial truncation, names inside and "
        "outside the set; non-trivial: a symbol set of at least two symbols or a truncation that removes a generator")
{
    const auto mask = gen_mask(t);
    const auto tr = gen_trunc(t, sg, 3);
    const auto tss = tr_ss(tr.syms);
    const unsigned i = static_cast<unsigned>(t.below(NS)), j = static_cast<unsigned>(t.below(NS));
    const std::string &x = names[i];
    const char *y = names[j].c_str();
    PBT_LOG(t, x, ", ", y, " over ", mask, ", truncation ", show(tr));
    auto check = [&](const P &p, unsigned k, mask_t m) {
        model<C> exp;
        mono e{};
        e[k] = 1;
        exp.emplace(e, C(1));
        const auto c = cut(exp, tr);
        same(t, p, c, tr, "generator " + names[k]);
        PBT_CHECK(t, ss_mask(p.get_symbol_set()) == m, "symbol set of the generator ", names[k]);
        t.nontrivial(c.empty() || mask_size(m) > 1u);
    };
    if (t.below(2)) {
        if (tr.kind == 0) {
            auto [p, q] = obake::make_p_series<P>(x, y);
            check(p, i, 1u << i);
            check(q, j, 1u << j);
        } else if (tr.kind == 1) {
            auto [p, q] = obake::make_p_series_t<P>(tr.d, x, y);
            check(p, i, 1u << i);
            check(q, j, 1u << j);
        } else {
            auto [p, q] = obake::make_p_series_p<P>(integer(tr.d), tss, y, x);
            check(p, j, 1u << j);
            check(q, i, 1u << i);
        }
    } else {
        const auto ss = to_ss(mask);
        const bool ok = (mask & (1u << i)) && (mask & (1u << j));
        auto go = [&](auto f) {
            if (ok) {
                const auto g = f();
                check(g[0], i, mask);
                check(g[1], j, mask);
                check(g[2], i, mask);
            } else {
                PBT_THROWS(t, std::invalid_argument, f(), "a generator outside the symbol set");
            }
        };
        if (tr.kind == 0) go([&] { return obake::make_p_series<P>(ss, x, y, x); });
        else if (tr.kind == 1) go([&] { return obake::make_p_series_t<P>(ss, integer(tr.d), x, y, x); });
        else go([&] { return obake::make_p_series_p<P>(ss, tr.d, tss, x, y, x); });
        t.label(ok ? "given set" : "outside the set");
    }
}
