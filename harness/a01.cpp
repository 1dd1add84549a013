// A01: polynomial addition, subtraction, negation and multiplication against the map model.
#include "nest_model.hpp"

#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 2>, rational>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint32_t>, double>;
#elif VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint32_t, 3>, integer>;
#elif VARIANT == 5
using P = obake::polynomial<obake::packed_monomial<std::int32_t>, rational>;
#elif VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 4>, integer>;
#elif VARIANT == 22
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;

// Keep double coefficients in the range in which the arithmetic is exact.
[[maybe_unused]] static bool moderate(const double &x)
{
    return std::fabs(x) < 1e4 && std::trunc(x * 256) == x * 256;
}
template <typename U>
static bool moderate(const U &)
{
    return true;
}

PBT_SUB(history, 60000, 2000000,
        "a history of 1-6 +, -, *, unary, compound, scalar and aliased operations on two polynomials over random symbol "
        "sets (exponents up to half the representable range), every value category, each step compared with the model; "
        "non-trivial: a product or sum of two polynomials with at least two terms each")
{
    const auto ma = gen_mask(t), mb = gen_mask(t);
    const auto lims = key_traits<K>::lims(mask_size(ma | mb));
    erange e{std::is_signed_v<typename key_traits<K>::int_t> ? -2 : 0, 3};
    const bool wide = t.chance(1, 4);
    if (wide) {
        // A single product is in range (checked below before each product).
        e.hi = static_cast<expo>(lims.second) > (expo(1) << 40) ? (expo(1) << 40) : static_cast<expo>(lims.second) / 2;
        if (e.lo < 0) e.lo = static_cast<expo>(lims.first) < -(expo(1) << 40) ? -(expo(1) << 40) : static_cast<expo>(lims.first) / 2;
        if (e.hi < 1) e.hi = 1;
    }
    const auto nt = t.scaled(24);
    auto a = gen_poly<P>(t, ma, nt, e);
    auto b = gen_poly<P>(t, mb, nt, e);
    PBT_LOG(t, "a=", show(a.m), "  b=", show(b.m));
    const auto steps = 1u + t.below(6);
    auto in_range = [&](const model<C> &r, mask_t mask) {
        const auto l = key_traits<K>::lims(mask_size(mask));
        for (const auto &p : r) {
            for (unsigned i = 0; i < NS; ++i) {
                if (p.first[i] > static_cast<expo>(std::min<std::uint64_t>(static_cast<std::uint64_t>(l.second), 1ull << 62))
                    || (p.first[i] < 0 && p.first[i] < static_cast<expo>(l.first)))
                    return false;
            }
        }
        return true;
    };
    for (std::uint64_t s = 0; s < steps; ++s) {
        const auto a0 = a.m, b0 = b.m;
        model<C> exp;
        P r;
        mask_t rmask = a.mask | b.mask;
        const auto op = t.below(10);
        const auto cat = t.below(4);
        if ((op < 6) && a.m.size() > 1u && b.m.size() > 1u) t.nontrivial();
        // Operands in the four value categories.
        auto bin = [&](auto f) {
            P ca(a.p), cb(b.p);
            switch (cat) {
                case 0:
                    return P(f(std::as_const(a.p), std::as_const(b.p)));
                case 1:
                    return P(f(std::move(ca), std::as_const(b.p)));
                case 2:
                    return P(f(std::as_const(a.p), std::move(cb)));
                default:
                    return P(f(std::move(ca), std::move(cb)));
            }
        };
        switch (op) {
            case 0:
            case 1:
                exp = add(a.m, b.m);
                r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); });
                t.label("add");
                break;
            case 2:
                exp = sub(a.m, b.m);
                r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); });
                t.label("sub");
                break;
            case 3:
            case 4:
                // Bound the growth of histories; keep clear of exponent overflow (A04 owns it).
                exp = mul(a.m, b.m);
                if (exp.size() > 1500u || !in_range(exp, rmask) || !in_range(mul(a.m, b.m), rmask)) continue;
                {
                    bool ok = true;
                    for (const auto &p : a.m)
                        for (const auto &q : b.m) {
                            model<C> one;
                            one.emplace(mono_mul(p.first, q.first), C(1));
                            ok = ok && in_range(one, rmask);
                        }
                    if (!ok) continue;
                }
                r = bin([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); });
                t.label("mul");
                break;
            case 5: { // compound
                const auto which = t.below(2);
                r = a.p;
                P cb(b.p);
                if (which == 0) {
                    exp = add(a.m, b.m);
                    P &ref = cat & 1 ? (r += std::move(cb)) : (r += std::as_const(b.p));
                    PBT_CHECK(t, &ref == &r);
                } else {
                    exp = sub(a.m, b.m);
                    P &ref = cat & 1 ? (r -= std::move(cb)) : (r -= std::as_const(b.p));
                    PBT_CHECK(t, &ref == &r);
                }
                t.label("compound");
                break;
            }
            case 6: { // unary
                rmask = a.mask;
                P ca(a.p);
                if (t.below(2)) {
                    exp = neg(a.m);
                    r = cat & 1 ? P(-std::move(ca)) : P(-std::as_const(a.p));
                } else {
                    exp = a.m;
                    r = cat & 1 ? P(+std::move(ca)) : P(+std::as_const(a.p));
                }
                break;
            }
            case 7: { // scalar of the coefficient type
                rmask = a.mask;
                const auto c = gen_cf<C>(t);
                PBT_LOG(t, "scalar ", c);
                switch (t.below(6)) {
                    case 0:
                        exp = add(a.m, constant(c));
                        r = a.p + c;
                        break;
                    case 1:
                        exp = add(a.m, constant(c));
                        r = c + P(a.p);
                        break;
                    case 2:
                        exp = sub(a.m, constant(c));
                        r = P(a.p) - c;
                        break;
                    case 3:
                        exp = sub(constant(c), a.m);
                        r = c - a.p;
                        break;
                    case 4:
                        exp = mul(a.m, constant(c));
                        r = a.p * c;
                        break;
                    default:
                        exp = mul(a.m, constant(c));
                        r = a.p;
                        r *= c;
                }
                t.label("scalar");
                break;
            }
            case 8: { // aliased operands
                rmask = a.mask;
                P ca(a.p);
                switch (t.below(4)) {
                    case 0:
                        exp = add(a.m, a.m);
                        r = ca + ca;
                        break;
                    case 1:
                        r = ca - ca;
                        break;
                    case 2:
                        exp = add(a.m, a.m);
                        ca += ca;
                        r = ca;
                        break;
                    default:
                        ca -= ca;
                        r = ca;
                }
                t.label("aliased");
                break;
            }
            default: { // division by a scalar
                if constexpr (std::is_same_v<C, rational> || std::is_same_v<C, double>) {
                    rmask = a.mask;
                    const C c = std::is_same_v<C, double> ? C(1 << t.below(3)) : gen_cf<C>(t, true);
                    exp = a.m;
                    for (auto &p : exp) p.second = p.second / c;
                    if (cat & 1) {
                        r = a.p / c;
                    } else {
                        r = a.p;
                        r /= c;
                    }
                    t.label("div");
                } else {
                    continue;
                }
            }
        }
        PBT_LOG(t, "step op=", op, " cat=", cat, " -> ", show(exp));
        same(t, r, exp, "result");
        PBT_CHECK(t, ss_mask(r.get_symbol_set()) == rmask || (r.get_symbol_set().empty() && op == 8 && exp.empty()),
                  "symbol set of the result is not the union");
        same(t, a.p, a0, "left operand modified");
        same(t, b.p, b0, "right operand modified");
        PBT_CHECK(t, (a.p == b.p) == (a0 == b0), "equality disagrees with the terms");
        if (r.size() > 200u) break;
        // Continue the history from the result.
        bool ok = true;
        for (const auto &p : exp) ok = ok && moderate(p.second);
        if (!ok) break;
        auto &target = t.below(2) ? a : b;
        if (t.below(2)) target.p = r;
        else target.p = std::move(r);
        target.m = exp;
        target.mask = ss_mask(target.p.get_symbol_set());
    }
}

#if VARIANT == 1 || VARIANT == 2 || VARIANT == 3
#if VARIANT == 1
using Q = obake::polynomial<obake::d_packed_monomial<std::int32_t, 2>, P>;
#elif VARIANT == 2
using Q = obake::polynomial<K, P>;
#else
using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, P>;
#endif
PBT_SUB(nested, 20000, 600000,
        "a history of 1-5 operations on polynomials with polynomial coefficients (both levels over any, also common, "
        "symbol sets), on them and coefficients or numbers, in every value category, in place and aliased; non-trivial: "
        "operands with at least two terms each")
{
    const erange e{std::is_signed_v<key_traits<K>::int_t> ? -1 : 0, 2};
    auto a = gen_nested<Q>(t, gen_mask(t), gen_mask(t), t.scaled(6), 3, e);
    auto b = gen_nested<Q>(t, gen_mask(t), gen_mask(t), t.scaled(6), 3, e);
    PBT_LOG(t, "a=", show(a.m), "  b=", show(b.m));
    const auto steps = 1u + t.below(5);
    unsigned muls = 0;
    for (std::uint64_t s = 0; s < steps; ++s) {
        const auto op = t.below(9);
        const auto cat = t.below(4);
        const bool big = a.m.size() * b.m.size() > 900u || muls > 2u;
        nmodel<C> exp;
        Q r;
        auto apply = [&](auto f, auto &x, auto &y) {
            auto cx(x);
            auto cy(y);
            switch (cat) {
                case 0:
                    return Q(f(std::as_const(x), std::as_const(y)));
                case 1:
                    return Q(f(std::move(cx), std::as_const(y)));
                case 2:
                    return Q(f(std::as_const(x), std::move(cy)));
                default:
                    return Q(f(std::move(cx), std::move(cy)));
            }
        };
        const auto plus = [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); };
        const auto minus = [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); };
        const auto times = [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); };
        if (a.q.size() > 1u && b.q.size() > 1u) t.nontrivial();
        bool outer_syms = true;
        switch (op) {
            case 0:
                exp = add(a.m, b.m);
                r = apply(plus, a.q, b.q);
                break;
            case 1:
                exp = sub(a.m, b.m);
                r = apply(minus, a.q, b.q);
                break;
            case 2:
                if (big) continue;
                ++muls;
                exp = mul(a.m, b.m);
                r = apply(times, a.q, b.q);
                t.label("mul");
                break;
            case 3: { // in place
                r = a.q;
                Q cb(b.q);
                switch (t.below(3)) {
                    case 0:
                        exp = add(a.m, b.m);
                        (cat & 1) ? (r += std::move(cb)) : (r += std::as_const(b.q));
                        break;
                    case 1:
                        exp = sub(a.m, b.m);
                        (cat & 1) ? (r -= std::move(cb)) : (r -= std::as_const(b.q));
                        break;
                    default:
                        if (big) continue;
                        ++muls;
                        exp = mul(a.m, b.m);
                        (cat & 1) ? (r *= std::move(cb)) : (r *= std::as_const(b.q));
                }
                t.label("compound");
                break;
            }
            case 4: { // with a coefficient
                outer_syms = false;
                auto c = gen_poly<P>(t, gen_mask(t), 3, e);
                const auto l = lift(c.m);
                PBT_LOG(t, "coefficient ", show(c.m));
                switch (t.below(9)) {
                    case 0:
                        exp = add(a.m, l);
                        r = apply(plus, a.q, c.p);
                        break;
                    case 1:
                        exp = add(a.m, l);
                        r = apply(plus, c.p, a.q);
                        break;
                    case 2:
                        exp = sub(a.m, l);
                        r = apply(minus, a.q, c.p);
                        break;
                    case 3:
                        exp = sub(l, a.m);
                        r = apply(minus, c.p, a.q);
                        break;
                    case 4:
                        exp = mul(a.m, l);
                        r = apply(times, a.q, c.p);
                        break;
                    case 5:
                        exp = mul(l, a.m);
                        r = apply(times, c.p, a.q);
                        break;
                    case 6:
                        exp = add(a.m, l);
                        r = a.q;
                        r += c.p;
                        break;
                    case 7:
                        exp = sub(a.m, l);
                        r = a.q;
                        r -= P(c.p);
                        break;
                    default:
                        exp = mul(a.m, l);
                        r = a.q;
                        r *= c.p;
                }
                same(t, c.p, c.m, "coefficient operand");
                t.label("coefficient");
                break;
            }
            case 5: { // with a number
                outer_syms = false;
                auto c = gen_cf<C>(t);
                const auto l = lift(constant(c));
                PBT_LOG(t, "number ", c);
                switch (t.below(6)) {
                    case 0:
                        exp = add(a.m, l);
                        r = apply(plus, a.q, c);
                        break;
                    case 1:
                        exp = sub(l, a.m);
                        r = apply(minus, c, a.q);
                        break;
                    case 2:
                        exp = mul(a.m, l);
                        r = apply(times, a.q, c);
                        break;
                    case 3:
                        exp = mul(a.m, l);
                        r = apply(times, c, a.q);
                        break;
                    case 4:
                        exp = sub(a.m, l);
                        r = a.q;
                        r -= c;
                        break;
                    default:
                        exp = mul(a.m, l);
                        r = a.q;
                        r *= c;
                }
                t.label("number");
                break;
            }
            case 6: {
                Q ca(a.q);
                exp = neg(a.m);
                r = (cat & 1) ? Q(-std::move(ca)) : Q(-std::as_const(a.q));
                outer_syms = false;
                break;
            }
            case 7: { // aliased
                outer_syms = false;
                Q ca(a.q);
                switch (t.below(5)) {
                    case 0:
                        exp = add(a.m, a.m);
                        r = ca + ca;
                        break;
                    case 1:
                        r = ca - ca;
                        break;
                    case 2:
                        exp = add(a.m, a.m);
                        ca += ca;
                        r = ca;
                        break;
                    case 3:
                        ca -= ca;
                        r = ca;
                        break;
                    default:
                        if (a.m.size() > 30u || muls > 2u) continue;
                        ++muls;
                        exp = mul(a.m, a.m);
                        ca *= ca;
                        r = ca;
                }
                t.label("aliased");
                break;
            }
            default: {
                if constexpr (std::is_same_v<C, rational>) {
                    const C c = gen_cf<C>(t, true);
                    exp = a.m;
                    for (auto &p : exp) p.second = p.second / c;
                    r = a.q;
                    if (cat & 1) r /= c;
                    else r = a.q / c;
                    outer_syms = false;
                    break;
                } else {
                    continue;
                }
            }
        }
        PBT_LOG(t, "step op=", op, " cat=", cat, " -> ", show(exp));
        nsame(t, r, exp, "result");
        if (!r.empty())
            PBT_CHECK(t, ss_mask(r.get_symbol_set()) == (outer_syms ? (a.mo | b.mo) : a.mo), "symbol set of the result");
        nsame(t, a.q, a.m, "left operand modified");
        nsame(t, b.q, b.m, "right operand modified");
        PBT_CHECK(t, (a.q == b.q) == (a.m == b.m), "equality disagrees with the terms");
        bool ok = exp.size() < 200u;
        for (const auto &p : exp) ok = ok && moderate(p.second);
        if (!ok) break;
        auto &target = t.below(2) ? a : b;
        if (t.below(2)) target.q = r;
        else target.q = std::move(r);
        target.m = exp;
        target.mo = ss_mask(target.q.get_symbol_set());
    }
}
#endif

PBT_SUB(huge, 8, 400,
        "sums, differences and negation of polynomials of 15000 to 91125 terms in up to 4096 segments; non-trivial: always")
{
    t.nontrivial();
    huge::sums<P>(t);
}
