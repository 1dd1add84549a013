// S03: value semantics: aliased operands, moved operands, copies and exchanges never disturb other objects.
#include "nest_model.hpp"
#include "ukey.hpp"

#include <obake/math/negate.hpp>

#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
#elif VARIANT == 3
using P = obake::series<uk::ukey, integer, uk::utag>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
constexpr bool has_mul = !std::is_same_v<K, uk::ukey>;

PBT_SUB(history, 40000, 1200000,
        "histories of up to 25 operations on four series in which operands coincide, are moved from and given new values, "
        "swapped, stored in a vector that grows; every live object compared with its model after every step; non-trivial: "
        "an aliased or moved operation on a series of several terms")
{
    constexpr unsigned N = 4;
    std::vector<P> p;
    std::vector<model<C>> m(N);
    std::vector<bool> live(N, true);
    for (unsigned i = 0; i < N; ++i) {
        // The vector moves its elements when it grows.
        auto g = gen_poly<P>(t, gen_mask(t), t.scaled(8), erange{0, 2});
        m[i] = g.m;
        p.push_back(std::move(g.p));
    }
    const auto n = 1u + t.below(25);
    for (std::uint64_t s = 0; s < n; ++s) {
        const auto i = static_cast<unsigned>(t.below(N)), j = static_cast<unsigned>(t.below(N)),
                   k = static_cast<unsigned>(t.below(N));
        if (!live[j] || !live[k]) {
            // Revive by copying or by a value.
            const auto d = live[j] ? k : j;
            unsigned src = 0;
            while (src < N && !live[src]) ++src;
            if (src < N && t.below(2)) {
                p[d] = p[src];
                m[d] = m[src];
            } else {
                p[d] = P(7);
                m[d] = constant<C>(C(7));
            }
            live[d] = true;
            PBT_LOG(t, "revive ", d);
            continue;
        }
        if (m[j].size() > 1u && (i == j || j == k)) t.nontrivial();
        const auto op = t.below(14);
        PBT_LOG(t, "op ", op, ": ", i, " <- ", j, ", ", k);
        switch (op) {
            case 0: { // p_i = p_j + p_k
                auto r = add(m[j], m[k]);
                p[i] = p[j] + p[k];
                m[i] = r;
                live[i] = true;
                break;
            }
            case 1: {
                auto r = sub(m[j], m[k]);
                p[i] = p[j] - p[k];
                m[i] = r;
                live[i] = true;
                break;
            }
            case 2: { // in place, possibly with itself
                auto r = add(m[j], m[k]);
                p[j] += p[k];
                m[j] = r;
                break;
            }
            case 3: {
                auto r = sub(m[j], m[k]);
                p[j] -= p[k];
                m[j] = r;
                break;
            }
            case 4: { // moved operand
                auto r = add(m[j], m[k]);
                P res(p[j] + std::move(p[k]));
                live[k] = k == j; // if the two coincide the result may have emptied it
                if (k == j) {
                    p[k] = P{};
                    m[k].clear();
                    live[k] = true;
                }
                same(t, res, r, "sum with a moved operand");
                p[i] = std::move(res);
                m[i] = r;
                live[i] = true;
                break;
            }
            case 5: {
                auto r = sub(m[j], m[k]);
                P res(std::move(p[j]) - p[k]);
                if (k == j) {
                    p[j] = P{};
                    m[j].clear();
                } else {
                    live[j] = false;
                }
                same(t, res, r, "difference with a moved operand");
                p[i] = std::move(res);
                m[i] = r;
                live[i] = true;
                break;
            }
            case 6: {
                auto r = add(m[j], m[k]);
                p[j] += std::move(p[k]);
                if (k != j) live[k] = false;
                m[j] = r;
                live[j] = true;
                break;
            }
            case 7:
                p[i] = p[j];
                m[i] = m[j];
                live[i] = true;
                break;
            case 8:
                if (i == j) break;
                p[i] = std::move(p[j]);
                m[i] = m[j];
                live[i] = true;
                live[j] = false;
                break;
            case 9: {
                using std::swap;
                swap(p[j], p[k]);
                swap(m[j], m[k]);
                break;
            }
            case 10:
                p[i] = -p[j];
                m[i] = neg(m[j]);
                live[i] = true;
                break;
            case 11:
                obake::negate(p[j]);
                m[j] = neg(m[j]);
                break;
            case 12: { // a scalar that is a coefficient of the operand itself, copied through the expression
                if (m[j].empty()) break;
                const auto &c = p[j].begin()->second;
                const auto v = static_cast<C>(c);
                P r(p[j] * c);
                model<C> e;
                for (const auto &q : m[j]) e.emplace(q.first, q.second * v);
                same(t, r, e, "times an own coefficient");
                break;
            }
            default:
#if VARIANT != 3
                if (m[j].size() * m[k].size() > 60u) break;
                {
                    bool ok = true;
                    for (const auto &q : m[j]) ok = ok && tdeg(q.first) < 12;
                    for (const auto &q : m[k]) ok = ok && tdeg(q.first) < 12;
                    if (!ok) break;
                    auto r = mul(m[j], m[k]);
                    if (t.below(2)) {
                        p[j] *= p[k];
                        m[j] = r;
                    } else {
                        p[i] = p[j] * p[k];
                        m[i] = r;
                        live[i] = true;
                    }
                }
#endif
                break;
        }
        for (unsigned q = 0; q < N; ++q) {
            if (live[q]) same(t, p[q], m[q], pbt::cat("object ", q, " after step ", s));
        }
    }
}

#if VARIANT != 3
using Q = obake::polynomial<K, P>;
PBT_SUB(own_parts, 20000, 600000,
        "operations that get a part of the very series they change: its own coefficients and keys (sums, products, "
        "insertions that make the table grow, assignments), on plain and on nested polynomials; non-trivial: several terms")
{
    const erange e{0, 2};
    auto a = gen_nested<Q>(t, gen_mask(t), gen_mask(t), t.scaled(20), 3, e);
    auto b = gen_poly<P>(t, gen_mask(t), t.scaled(40), e);
    t.nontrivial(a.q.size() > 1u && b.m.size() > 1u);
    const auto n = 1u + t.below(6);
    for (std::uint64_t s = 0; s < n; ++s) {
        if (a.m.empty() || b.m.empty() || a.m.size() > 300u) break;
        const auto op = t.below(15);
        PBT_LOG(t, "op ", op, " on ", show(a.m), " / ", show(b.m));
        // Some term of each.
        auto it = a.q.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(t.below(a.q.size())));
        auto &c = it->second;
        const model<C> cm = to_model(c);
        const auto cl = lift(cm);
        const auto term = [](const Q &q, const obake::series_key_t<Q> &k) {
            const auto v = key_traits<K>::unpack(k, static_cast<unsigned>(q.get_symbol_set().size()));
            mono o{};
            unsigned i = 0;
            for (const auto &sy : q.get_symbol_set()) o[sym_idx(sy)] = static_cast<expo>(v[i++]);
            return o;
        };
        const auto at = [](const nmodel<C> &m, const mono &o) {
            nmodel<C> r;
            for (const auto &p : m) r.emplace(both(o, inner(p.first)), p.second);
            return r;
        };
        auto bt = b.p.begin();
        std::advance(bt, static_cast<std::ptrdiff_t>(t.below(b.p.size())));
        const C d = bt->second;
        switch (op) {
            case 0:
                a.m = add(a.m, cl);
                a.q += c;
                break;
            case 1:
                a.m = sub(a.m, cl);
                a.q -= c;
                break;
            case 2:
                a.m = mul(a.m, cl);
                a.q *= c;
                break;
            case 3:
                a.m = mul(a.m, cl);
                a.q = a.q * c;
                break;
            case 4:
                a.m = sub(cl, a.m);
                a.q = c - a.q;
                break;
            case 5:
                a.m = cl;
                a.q = c;
                break;
            case 6: { // the own coefficient at every monomial of a neighbourhood: the table grows
                const auto mo = ss_mask(a.q.get_symbol_set());
                const auto cnt = t.below(30);
                for (std::uint64_t k = 0; k < cnt; ++k) {
                    mono o{};
                    for (unsigned j = 0; j < NS; ++j) {
                        if (mo & (1u << j)) o[j] = static_cast<expo>(t.below(4));
                    }
                    const auto &f = *a.q.begin();
                    const auto add_m = at(lift(to_model(f.second)), o);
                    if (o == term(a.q, f.first)) continue;
                    a.m = add(a.m, add_m);
                    a.q.add_term(make_key<K>(o, mo), f.second);
                    if (a.q.empty()) break;
                }
                t.label("growth");
                break;
            }
            case 7: { // own key and own coefficient
                a.m = add(a.m, at(cl, term(a.q, it->first)));
                a.q.add_term(it->first, c);
                break;
            }
            case 8: {
                a.m = sub(a.m, at(cl, term(a.q, it->first)));
                a.q.template add_term<false>(it->first, std::as_const(c));
                t.label("own term removed");
                break;
            }
            case 9:
                b.m = add(b.m, constant(d));
                b.p += bt->second;
                break;
            case 10:
                b.m = sub(b.m, constant(d));
                b.p -= bt->second;
                break;
            case 11:
                b.m = mul(b.m, constant(d));
                b.p *= bt->second;
                break;
            case 12:
                b.m = constant(d);
                b.p = std::as_const(bt->second);
                break;
            case 13: { // an own coefficient in a product of polynomials
                a.m = mul(a.m, cl);
                a.q = Q(c) * a.q;
                break;
            }
            default: { // the coefficient changed through the iterator with the series itself in the expression
                const auto o = term(a.q, it->first);
                a.m = add(a.m, at(cl, o));
                c += std::as_const(a.q).find(it->first)->second;
                if (c.empty()) t.fail("the coefficient vanished");
                break;
            }
        }
        nsame(t, a.q, a.m, pbt::cat("nested after step ", s));
        same(t, b.p, b.m, pbt::cat("plain after step ", s));
        for (const auto &p : a.m) {
            bool small = true;
            for (auto x : p.first) small = small && x < 30;
            if (!small) return;
        }
    }
}
#endif

// The hash of the user keys is too weak for this many.
#if VARIANT != 3
PBT_SUB(huge, 8, 400,
        "copies, moves, exchanges and aliased sums of series of 15000 to 91125 terms in up to 4096 segments; non-trivial: always")
{
    t.nontrivial();
    huge::values<P>(t);
}
#endif
