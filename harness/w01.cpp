// W01: the arithmetic and the calculus of power series give the truncation of the exact result.
#include "ps_model.hpp"
#if VARIANT == 5 || VARIANT == 6
#include "umono.hpp"
#endif

#if VARIANT == 1
using P = obake::p_series<obake::packed_monomial<std::int64_t>, pm::rational>;
#elif VARIANT == 2
using P = obake::p_series<obake::d_packed_monomial<std::int32_t, 2>, double>;
#elif VARIANT == 3
using P = obake::p_series<obake::d_packed_monomial<std::uint32_t, 3>, pm::integer>;
#elif VARIANT == 4
using P = obake::p_series<obake::packed_monomial<std::uint64_t>, pm::rational>;
#elif VARIANT == 5
using P = obake::p_series<um::umono<1>, pm::rational>;
#elif VARIANT == 6
using P = obake::p_series<um::umono<2>, pm::integer>;
#elif VARIANT == 21
using P = obake::p_series<obake::d_packed_monomial<std::int64_t, 4>, pm::rational>;
#endif

using namespace ps;
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
constexpr bool sg = std::is_signed_v<typename key_traits<K>::int_t>;

[[maybe_unused]] static bool moderate(const double &x)
{
    return std::fabs(x) < 1e4 && std::trunc(x * 256) == x * 256;
}
template <typename U>
static bool moderate(const U &)
{
    return true;
}
static bool moderate(const model<C> &m)
{
    if (m.size() > 400u) return false;
    for (const auto &q : m) {
        if (!moderate(q.second)) return false;
        for (auto e : q.first) {
            if (e > 60 || e < -60) return false;
        }
    }
    return true;
}
static bool nonneg(const model<C> &m)
{
    for (const auto &q : m) {
        for (auto e : q.first) {
            if (e < 0) return false;
        }
    }
    return true;
}
// Coefficients for which sums of products stay exact.
[[maybe_unused]] static bool small_one(const double &x)
{
    return std::fabs(x) <= 16 && x * 4 == std::trunc(x * 4);
}
template <typename U>
static bool small_one(const U &)
{
    return true;
}
static bool small_cf(const model<C> &m)
{
    for (const auto &q : m) {
        if (!small_one(q.second)) return false;
    }
    return true;
}

template <typename F>
static void refused(pbt::T &t, F f, const char *what)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        t.label("refused");
        return;
    }
    t.fail(std::string(what) + ": no invalid_argument for operands with different truncations");
}

// Truncations shared by the operands of a case, so that they often agree.
struct truncs {
    trunc_t a, b;
    trunc_t pick(pbt::T &t) const
    {
        switch (t.below(6)) {
            case 0:
                return trunc_t{};
            case 1:
                return b;
            default:
                return a;
        }
    }
};

PBT_SUB(history, 50000, 2000000,
        "a history of 1 to 8 operations (+, -, *, in place and aliased, every value category; with scalars; powers, "
        "derivatives, integrals, substitutions; setting, unsetting and applying a truncation) on two power series over random "
        "symbol sets, each step compared, terms and truncation, with the truncation of the exact result; non-trivial: a "
        "product, sum or power from which the truncation removes some but not all terms")
{
#if VARIANT == 5 || VARIANT == 6
    // Big keys make small series take the parallel algorithm.
    um::weight = t.below(4) ? 64u : 20000u;
#endif
    truncs tt{gen_trunc(t, sg), gen_trunc(t, sg)};
    if (t.below(3) == 0u) {
        // Almost equal truncations.
        tt.b = tt.a;
        if (tt.b.kind == 2 && t.below(2)) tt.b.syms ^= 1u << t.below(NS + 1u);
        else ++tt.b.d;
    }
    const erange e{sg && t.below(4) == 0u ? -2 : 0, 3};
    const auto nt = t.scaled(12);
    // Half of the time a truncation at the degree of a term of the product.
    const bool fit = t.below(2) == 0u;
    auto a = gen_ser<P>(t, nt, e, fit ? trunc_t{} : tt.pick(t));
    auto b = gen_ser<P>(t, nt, e, fit ? trunc_t{} : tt.pick(t));
    if (fit) {
        if (tt.a.kind == 0) tt.a.kind = 1;
        const mask_t which = tt.a.kind == 1 ? ~0u : tt.a.syms;
        tt.a.d = 0;
        for (const auto *m : {&a.m, &b.m}) {
            if (m->empty()) continue;
            auto it = m->begin();
            std::advance(it, static_cast<std::ptrdiff_t>(t.below(m->size())));
            tt.a.d += tdeg(it->first, which);
        }
        if (t.below(4) == 0u) tt.b = tt.a;
        for (auto *x : {&a, &b}) {
            const auto tr = tt.pick(t);
            set_tr(x->p, tr);
            x->m = cut(x->m, tr);
            x->tr = tr;
        }
    }
    bool big = false;
    if constexpr (!std::is_same_v<C, double>) {
        if (t.below(60) == 0u) {
            big = true;
            // Enough bytes for the parallel algorithms.
            const C big(integer(1) << static_cast<unsigned>(60000u + t.below(30000u)));
            for (auto &q : a.m) q.second = q.second * big;
            a.p = build<P>(a.m, a.mask, static_cast<unsigned>(t.below(4)));
            set_tr(a.p, a.tr);
        }
    }
    PBT_LOG(t, "a=", show(a.m), " [", show(a.tr), "]  b=", show(b.m), " [", show(b.tr), "]");
    auto cutting = [&](const model<C> &full, const model<C> &kept) {
        t.nontrivial(!kept.empty() && kept.size() < full.size());
    };
    const auto steps = 1u + t.below(big ? 2 : 8);
    for (std::uint64_t s = 0; s < steps; ++s) {
        const auto a0 = a.m, b0 = b.m;
        const auto ta0 = a.tr, tb0 = b.tr;
        model<C> exp;
        trunc_t etr = a.tr;
        mask_t emask = a.mask;
        P r;
        const auto op = t.below(17);
        const auto cat = t.below(4);
        bool any_tag = false, any_mask = false;
        auto bin = [&](auto f) {
            P ca(a.p), cb(b.p);
            switch (cat) {
                case 0:
                    return P(f(std::as_const(a.p), std::as_const(b.p)));
                case 1:
                    return P(f(std::move(ca), std::as_const(b.p)));
                case 2:
                    return P(f(std::as_const(a.p), std::move(cb)));
                default:
                    return P(f(std::move(ca), std::move(cb)));
            }
        };
        switch (op) {
            case 0:
            case 1:
            case 2: { // sums and differences
                const bool plus = t.below(2) == 0u, inpl = op == 2;
                PBT_LOG(t, plus ? "a + b" : "a - b", inpl ? " in place" : "");
                emask = a.mask | b.mask;
                auto f = [&]() -> P {
                    if (inpl) {
                        P x(a.p), cb(b.p);
                        P &ref = plus ? (cat & 1 ? (x += std::move(cb)) : (x += std::as_const(b.p)))
                                      : (cat & 1 ? (x -= std::move(cb)) : (x -= std::as_const(b.p)));
                        PBT_CHECK(t, &ref == &x);
                        return x;
                    }
                    if (plus)
                        return bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); });
                    return bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); });
                };
                if (!join(a.tr, b.tr, etr)) {
                    if (inpl) {
                        P x(a.p);
                        if (plus) refused(t, [&] { x += b.p; }, "in-place sum");
                        else refused(t, [&] { x -= b.p; }, "in-place difference");
                        same(t, x, a.m, a.tr, "left operand of a refused operation");
                    } else {
                        refused(t, f, "sum");
                    }
                    same(t, a.p, a0, ta0, "left operand");
                    same(t, b.p, b0, tb0, "right operand");
                    continue;
                }
                const auto full = plus ? add(a.m, b.m) : sub(a.m, b.m);
                exp = cut(full, etr);
                cutting(full, exp);
                r = f();
                t.label(inpl ? "in-place sum" : "sum");
                break;
            }
            case 3:
            case 4:
            case 5: { // products
                const bool inpl = op == 5;
                PBT_LOG(t, "a * b", inpl ? " in place" : "");
                emask = a.mask | b.mask;
                const bool ok = join(a.tr, b.tr, etr);
                auto f = [&]() -> P {
                    if (inpl) {
                        P x(a.p), cb(b.p);
                        P &ref = cat & 1 ? (x *= std::move(cb)) : (x *= std::as_const(b.p));
                        PBT_CHECK(t, &ref == &x);
                        return x;
                    }
                    return bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); });
                };
                if (!ok) {
                    refused(t, f, "product");
                    same(t, a.p, a0, ta0, "left operand");
                    same(t, b.p, b0, tb0, "right operand");
                    continue;
                }
                if (!moderate(a.m) || !moderate(b.m) || !small_cf(b.m)) continue;
                const auto full = mul(a.m, b.m);
                exp = cut(full, etr);
                cutting(full, exp);
                r = f();
                t.label(inpl ? "in-place product" : "product");
                break;
            }
            case 6: { // sum with a scalar
                const auto c = gen_cf<C>(t);
                PBT_LOG(t, "sum/difference with ", c);
                switch (t.below(6)) {
                    case 0:
                        exp = add(a.m, constant(c));
                        r = a.p + c;
                        break;
                    case 1:
                        exp = add(a.m, constant(c));
                        r = c + P(a.p);
                        break;
                    case 2:
                        exp = sub(a.m, constant(c));
                        r = P(a.p) - c;
                        break;
                    case 3:
                        exp = sub(constant(c), a.m);
                        r = c - a.p;
                        break;
                    case 4:
                        exp = add(a.m, constant(c));
                        r = a.p;
                        r += c;
                        break;
                    default:
                        exp = sub(a.m, constant(c));
                        r = a.p;
                        r -= c;
                }
                exp = cut(exp, etr);
                t.label("scalar sum");
                break;
            }
            case 7: { // product or quotient with a scalar
                auto c = gen_cf<C>(t);
                if (std::is_same_v<C, double> && t.below(2)) c = C(1 << t.below(3));
                PBT_LOG(t, "product/quotient with ", c);
                const auto w = t.below(4);
                if (w < 3u) {
                    if (!small_cf(a.m)) continue;
                    exp = mul(a.m, constant(c));
                    if (w == 0u) r = a.p * c;
                    else if (w == 1u) r = c * P(a.p);
                    else (r = a.p) *= c;
                } else {
                    if (czero(c)) continue;
                    for (const auto &q : a.m) {
                        const C x = q.second / c;
                        if (!czero(x)) exp.emplace(q.first, x);
                    }
                    if (t.below(2)) r = a.p / c;
                    else (r = a.p) /= c;
                }
                t.label("scalar product");
                break;
            }
            case 8:
            case 9: { // powers
                const auto n = static_cast<unsigned>(t.below(big ? 3 : 5));
                if (!moderate(a.m) || a.m.size() > 12u || !small_cf(a.m)) continue;
                if (std::is_same_v<C, double> && n > 3u) continue;
                if (!nonneg(a.m) && a.m.size() > 1u) continue;
                PBT_LOG(t, "a ** ", n);
                const auto full = pm::pow(a.m, n);
                exp = cut(full, etr);
                cutting(full, exp);
                any_mask = true;
                // Mostly without clearing the cache.
                if (t.below(8) == 0u) obake::customisation::internal::clear_series_pow_map();
                const auto ty = t.below(3);
                r = ty == 0u ? P(obake::pow(a.p, n))
                             : (ty == 1u ? P(obake::pow(P(a.p), static_cast<int>(n))) : P(obake::pow(a.p, integer(n))));
                t.label("power");
                break;
            }
            case 10: { // derivative
                if constexpr (std::is_same_v<C, double>) {
                    if (!moderate(a.m)) continue;
                }
                const auto j = static_cast<unsigned>(t.below(NS));
                PBT_LOG(t, "derivative in ", names[j]);
                bool ok = true;
                for (const auto &q : a.m) {
                    if (!(a.mask & (1u << j)) || q.first[j] == 0) continue;
                    auto k = q.first;
                    --k[j];
                    ok = ok && k[j] > -100;
                    add_to(exp, k, C(q.second * static_cast<C>(q.first[j])));
                }
                if (!ok) continue;
                r = cat & 1 ? P(obake::diff(P(a.p), names[j])) : P(obake::diff(a.p, names[j]));
                any_mask = true;
                t.label("derivative");
                break;
            }
            case 11: { // integral
                const auto j = static_cast<unsigned>(t.below(NS));
                if (!moderate(a.m)) continue;
                PBT_LOG(t, "integral in ", names[j]);
                bool ok = true;
                for (const auto &q : a.m) {
                    if (q.first[j] == -1) ok = false;
                    auto k = q.first;
                    ++k[j];
                    if (!ok) break;
                    const C x = q.second / static_cast<C>(k[j]);
                    if (!czero(x)) exp.emplace(k, x);
                }
                if (!ok) continue;
                const auto full = exp;
                exp = cut(exp, etr);
                cutting(full, exp);
                emask |= 1u << j;
                r = cat & 1 ? P(obake::integrate(P(a.p), names[j])) : P(obake::integrate(a.p, names[j]));
                t.label("integral");
                break;
            }
            case 12: { // substitution of scalars
                if (!nonneg(a.m) || !moderate(a.m) || !small_cf(a.m)) continue;
                obake::symbol_map<C> sm;
                std::array<C, NS> v;
                mask_t which = 0;
                for (unsigned j = 0; j < NS; ++j) {
                    if (t.below(2)) continue;
                    v[j] = static_cast<C>(static_cast<int>(t.sym(2)));
                    sm[names[j]] = v[j];
                    which |= 1u << j;
                }
                bool ok = true;
                for (const auto &q : a.m) {
                    auto k = q.first;
                    C c = q.second;
                    for (unsigned j = 0; j < NS; ++j) {
                        if (!(which & (1u << j))) continue;
                        ok = ok && k[j] < 8;
                        for (expo i = 0; ok && i < k[j]; ++i) c = c * v[j];
                        k[j] = 0;
                    }
                    if (!ok) break;
                    add_to(exp, k, c);
                }
                if (!ok) continue;
                PBT_LOG(t, "substitution of scalars for ", obake::detail::to_string(to_ss(which)));
                r = P(obake::subs(a.p, sm));
                any_mask = true;
                any_tag = a.m.empty();
                t.label("substitution of scalars");
                break;
            }
            case 13: { // substitution of a series
                if (!nonneg(a.m) || !nonneg(b.m) || !moderate(a.m) || !moderate(b.m) || std::is_same_v<C, double>) continue;
                if (big || a.m.size() > 8u || b.m.size() > 6u) continue;
                const auto j = static_cast<unsigned>(t.below(NS));
                bool ok = true;
                for (const auto &q : a.m) ok = ok && q.first[j] < 5;
                trunc_t jt;
                if (!ok || !join(a.tr, b.tr, jt)) continue;
                PBT_LOG(t, "substitution of b for ", names[j]);
                model<C> full;
                bool used = false;
                for (const auto &q : a.m) {
                    auto k = q.first;
                    const auto n = k[j];
                    k[j] = 0;
                    used = used || n > 0;
                    model<C> one;
                    one.emplace(k, q.second);
                    full = add(full, mul(one, pm::pow(b.m, static_cast<unsigned>(n))));
                }
                r = P(obake::subs(a.p, obake::symbol_map<P>{{names[j], b.p}}));
                // The truncation of an operand that contributed nothing may be lost.
                etr = get_tr(r);
                PBT_CHECK(t, etr == jt || (etr.kind == 0 && (a.m.empty() || (a.tr.kind == 0 && !used))),
                          "truncation ", show(etr), " of the substitution, expected ", show(jt));
                exp = cut(full, etr);
                cutting(full, exp);
                any_mask = true;
                t.label("substitution of a series");
                break;
            }
            case 14: { // setting another truncation
                etr = tt.pick(t);
                PBT_LOG(t, "truncation of a set to ", show(etr));
                r = a.p;
                set_tr(r, etr);
                exp = cut(a.m, etr);
                break;
            }
            case 15: { // terms beyond the truncation removed
                r = a.p;
                exp = a.m;
                const auto extra = gen_model<C>(t, a.mask, 4, e);
                for (const auto &q : extra) {
                    r.add_term(make_key<K>(q.first, a.mask), q.second);
                    add_to(exp, q.first, q.second);
                }
                PBT_LOG(t, "terms added to a, then truncated: ", show(extra));
                obake::truncate(r);
                exp = cut(exp, etr);
                break;
            }
            default: { // aliased operands, unary operators
                P x(a.p);
                const auto w = t.below(7);
                PBT_LOG(t, "aliased/unary ", w);
                switch (w) {
                    case 0:
                        exp = add(a.m, a.m);
                        x += x;
                        r = x;
                        break;
                    case 1:
                        x -= x;
                        r = x;
                        break;
                    case 2:
                        if (!moderate(a.m) || !small_cf(a.m)) continue;
                        exp = cut(mul(a.m, a.m), etr);
                        x *= x;
                        r = x;
                        break;
                    case 3:
                        if (!moderate(a.m) || !small_cf(a.m)) continue;
                        exp = cut(mul(a.m, a.m), etr);
                        r = x * x;
                        break;
                    case 4:
                        exp = neg(a.m);
                        r = cat & 1 ? P(-std::move(x)) : P(-x);
                        break;
                    case 5:
                        exp = a.m;
                        r = cat & 1 ? P(+std::move(x)) : P(+x);
                        break;
                    default: {
                        exp = a.m;
                        P y(std::move(x)), z;
                        z = std::move(y);
                        using std::swap;
                        swap(z, r);
                    }
                }
                any_mask = w == 1u;
                t.label("aliased");
            }
        }
        PBT_LOG(t, "step ", op, " category ", cat, " -> ", show(exp), " [", show(etr), "]");
        if (any_tag) etr = get_tr(r);
        same(t, r, exp, etr, "result");
        if (!any_mask) {
            PBT_CHECK(t, ss_mask(r.get_symbol_set()) == emask, "symbol set of the result");
        }
        same(t, a.p, a0, ta0, "left operand");
        same(t, b.p, b0, tb0, "right operand");
        PBT_CHECK(t, (a.p == b.p) == (a0 == b0 && ta0 == tb0), "equality");
        if (!moderate(exp)) break;
        auto &target = t.below(3) ? a : b;
        if (t.below(2)) target.p = r;
        else target.p = std::move(r);
        target.m = exp;
        target.tr = etr;
        target.mask = ss_mask(target.p.get_symbol_set());
    }
}

#if VARIANT == 1
// Operands with different coefficient types.
using PI = obake::p_series<obake::packed_monomial<std::int64_t>, pm::integer>;

PBT_SUB(mixed, 20000, 800000,
        "sums, differences and products of power series with integer and with rational coefficients, and with rational and "
        "integer scalars, and conversions between them; non-trivial: the truncation removes some but not all terms of a result")
{
    truncs tt{gen_trunc(t, sg), gen_trunc(t, sg)};
    const erange e{t.below(4) == 0u ? -2 : 0, 3};
    auto a = gen_ser<P>(t, t.scaled(10), e, tt.pick(t));
    auto b = gen_ser<PI>(t, t.scaled(10), e, tt.pick(t));
    const auto bm = convert<rational>(b.m);
    PBT_LOG(t, "a=", show(a.m), " [", show(a.tr), "]  b=", show(b.m), " [", show(b.tr), "]");
    trunc_t etr;
    const bool ok = join(a.tr, b.tr, etr);
    const auto op = t.below(10);
    model<C> full;
    P r;
    const char *what = "";
    auto doit = [&](auto f) {
        if (ok) r = P(f());
        else refused(t, f, what);
    };
    bool judge = true;
    switch (op) {
        case 0:
            what = "a + b";
            full = add(a.m, bm);
            doit([&] { return a.p + b.p; });
            break;
        case 1:
            what = "b - a";
            full = sub(bm, a.m);
            doit([&] { return PI(b.p) - P(a.p); });
            break;
        case 2:
            what = "a * b";
            full = mul(a.m, bm);
            doit([&] { return a.p * b.p; });
            break;
        case 3:
            what = "b * a";
            full = mul(a.m, bm);
            doit([&] { return b.p * a.p; });
            break;
        case 4:
            what = "a -= b";
            full = sub(a.m, bm);
            doit([&] {
                P x(a.p);
                x -= b.p;
                return x;
            });
            break;
        case 5: {
            what = "conversion";
            r = P(b.p);
            etr = b.tr;
            full = bm;
            judge = false;
            break;
        }
        case 6: {
            what = "b + rational";
            const auto c = gen_cf<rational>(t);
            r = t.below(2) ? b.p + c : c + b.p;
            full = add(bm, constant(c));
            etr = b.tr;
            judge = false;
            break;
        }
        case 7: {
            what = "b * rational";
            const auto c = gen_cf<rational>(t);
            r = t.below(2) ? b.p * c : c * PI(b.p);
            full = mul(bm, constant(c));
            etr = b.tr;
            judge = false;
            break;
        }
        case 8: {
            what = "integer - a";
            const auto c = gen_cf<integer>(t);
            r = t.below(2) ? c - a.p : c - P(a.p);
            full = sub(constant(rational(c)), a.m);
            etr = a.tr;
            judge = false;
            break;
        }
        default: {
            what = "a *= integer";
            const auto c = gen_cf<integer>(t);
            r = a.p;
            r *= c;
            full = mul(a.m, constant(rational(c)));
            etr = a.tr;
            judge = false;
        }
    }
    t.label(what);
    if (ok || !judge) {
        const auto exp = cut(full, etr);
        same(t, r, exp, etr, what);
        t.nontrivial(!exp.empty() && exp.size() < full.size());
    }
    same(t, a.p, a.m, a.tr, "a");
    same(t, b.p, b.m, b.tr, "b");
    PBT_CHECK(t, (a.p == b.p) == (a.m == bm && a.tr == b.tr), "equality");
}
#endif

PBT_SUB(large, 40, 2000,
        "products, sums and squares of power series of 100 to 500 terms, which take the parallel algorithms, with total, partial "
        "or no truncation, over equal or different symbol sets; non-trivial: the truncation removes some but not all terms of the "
        "product")
{
#if VARIANT == 5 || VARIANT == 6
    um::weight = 64;
#endif
    auto z = t.raw64() | 1u;
    const auto next = [&z] {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        return z >> 11;
    };
    const mask_t masks[] = {0x16, 0x07, 0x2c, 0x31, 0x1a};
    const auto tr = gen_trunc(t, sg, 14);
    const auto make = [&](mask_t mask, const trunc_t &w) {
        ser<P> r;
        r.mask = mask;
        r.tr = w;
        model<C> m;
        const auto n = 100u + t.below(400);
        const auto lo = sg && t.below(4) == 0u ? 2u : 0u;
        for (std::uint64_t i = 0; i < n; ++i) {
            mono e{};
            for (unsigned j = 0; j < NS; ++j) {
                if (mask & (1u << j)) e[j] = static_cast<expo>(next() % 9u) - static_cast<expo>(lo);
            }
            add_to(m, e, C(static_cast<int>(next() % 3u) + 1));
        }
        r.p = build<P>(m, mask, static_cast<unsigned>(t.below(6)));
        set_tr(r.p, w);
        r.m = cut(m, w);
        return r;
    };
    const auto ma = masks[t.below(std::size(masks))];
    const auto mb = t.below(3) ? ma : masks[t.below(std::size(masks))];
    const auto a = make(ma, tr);
    auto b = make(mb, t.below(3) ? tr : trunc_t{});
    PBT_LOG(t, a.m.size(), " and ", b.m.size(), " terms over ", ma, " and ", mb, ", truncations ", show(a.tr), " and ", show(b.tr));
    trunc_t etr;
    PBT_CHECK(t, join(a.tr, b.tr, etr), "the generator");
    const auto full = mul(a.m, b.m);
    const auto exp = cut(full, etr);
    t.nontrivial(!exp.empty() && exp.size() < full.size());
    same(t, t.below(2) ? a.p * b.p : b.p * a.p, exp, etr, "product");
    if (t.below(2)) {
        same(t, a.p - b.p, cut(sub(a.m, b.m), etr), etr, "difference");
    } else {
        auto s = a.p;
        s *= s;
        same(t, s, cut(mul(a.m, a.m), a.tr), a.tr, "square");
        same(t, obake::pow(b.p, 2), cut(mul(b.m, b.m), b.tr), b.tr, "power");
    }
    same(t, a.p, a.m, a.tr, "a");
    same(t, b.p, b.m, b.tr, "b");
}
