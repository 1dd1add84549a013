// S04: conversions between series types, and arithmetic that mixes coefficient types and ranks.
#include "poly_model.hpp"

#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using K = obake::packed_monomial<std::int64_t>;
#elif VARIANT == 2
using K = obake::d_packed_monomial<std::uint32_t, 2>;
#elif VARIANT == 21
using K = obake::packed_monomial<std::int64_t>;
#endif
template <typename C>
using P = obake::polynomial<K, C>;

// Coefficients: fractions, whole numbers and values that vanish in a narrower type.
template <typename C>
static C gen_any(pbt::T &t)
{
    if constexpr (std::is_same_v<C, rational>) {
        switch (t.below(5)) {
            case 0: {
                // Zero as a double.
                return rational(integer(1), integer(10) << (2000u + static_cast<unsigned>(t.below(100))));
            }
            case 1:
                return rational(t.sym(3), 4);
            default:
                return rational(t.sym(20), 4);
        }
    } else if constexpr (std::is_same_v<C, double>) {
        return t.below(4) ? static_cast<double>(t.sym(20)) / 4. : static_cast<double>(t.sym(3)) / 4.;
    } else if constexpr (std::is_same_v<C, float>) {
        return static_cast<float>(t.sym(20)) / 4.f;
    } else {
        return C(static_cast<int>(t.sym(20)));
    }
}
template <typename C>
static pair_t<P<C>> gen(pbt::T &t, mask_t mask, std::size_t n)
{
    const auto k = gen_model<int>(t, mask, n, erange{0, 2});
    model<C> m;
    for (const auto &p : k) {
        auto c = gen_any<C>(t);
        if (!czero(c)) m.emplace(p.first, c);
    }
    return {build<P<C>>(m, mask, static_cast<unsigned>(t.below(4))), m, mask};
}

template <typename A, typename B>
static void convert_case(pbt::T &t)
{
    const auto mask = gen_mask(t);
    const auto a = gen<A>(t, mask, t.scaled(10));
    const auto exp = convert<B>(a.m);
    PBT_LOG(t, "convert ", show(a.m), " over ", mask);
    t.nontrivial(exp.size() > 1u);
    t.label(exp.size() < a.m.size() ? "coefficients vanish" : "no coefficient vanishes");
    const P<B> r(a.p);
    same(t, r, exp, "conversion");
    PBT_CHECK(t, r.get_symbol_set() == to_ss(mask) && r.get_s_size() == a.p.get_s_size(), "symbol set, segments");
    P<A> c(a.p);
    same(t, P<B>(std::move(c)), exp, "conversion of an rvalue");
    c = a.p;
    same(t, c, a.m, "the source, assigned again");
    P<B> s(3);
    s = a.p;
    same(t, s, exp, "assignment");
    s = std::move(c);
    same(t, s, exp, "move assignment");
    same(t, a.p, a.m, "operand");
}

PBT_SUB(convert, 40000, 1000000,
        "conversion to another coefficient type (construction and assignment, lvalues and rvalues): the model converted "
        "term by term, vanishing coefficients dropped; non-trivial: at least two terms left")
{
    switch (t.below(7)) {
        case 0:
            return convert_case<rational, integer>(t);
        case 1:
            return convert_case<rational, double>(t);
        case 2:
            return convert_case<double, integer>(t);
        case 3:
            return convert_case<double, int>(t);
        case 4:
            return convert_case<integer, rational>(t);
        case 5:
            return convert_case<double, rational>(t);
        default:
            return convert_case<int, double>(t);
    }
}

template <typename A, typename B>
static void mixed_case(pbt::T &t)
{
    const auto ma = gen_mask(t), mb = t.below(2) ? ma : gen_mask(t);
    const auto a = gen<A>(t, ma, t.scaled(8));
    const auto b = gen<B>(t, mb, t.scaled(8));
    using R = std::remove_cvref_t<decltype(std::declval<A>() + std::declval<B>())>;
    const auto x = convert<R>(a.m), y = convert<R>(b.m);
    t.label(x.size() < a.m.size() || y.size() < b.m.size() ? "coefficients vanish" : "no coefficient vanishes");
    t.nontrivial(a.m.size() > 1u && b.m.size() > 1u);
    PBT_LOG(t, "a=", show(a.m), " over ", ma, "  b=", show(b.m), " over ", mb);
    auto both = [&](auto f) {
        switch (t.below(3)) {
            case 0:
                return f(a.p, b.p);
            case 1:
                return f(P<A>(a.p), P<B>(b.p));
            default:
                return f(a.p, P<B>(b.p));
        }
    };
    const auto s = both([](auto &&u, auto &&v) { return std::forward<decltype(u)>(u) + std::forward<decltype(v)>(v); });
    PBT_CHECK(t, (std::is_same_v<std::remove_cvref_t<decltype(s)>, P<R>>), "type");
    same(t, s, add(x, y), "sum");
    PBT_CHECK(t, s.get_symbol_set() == to_ss(ma | mb), "symbol set");
    same(t, both([](auto &&u, auto &&v) { return std::forward<decltype(u)>(u) - std::forward<decltype(v)>(v); }), sub(x, y),
         "difference");
    same(t, b.p - a.p, sub(y, x), "difference, reversed");
    if constexpr (std::is_same_v<A, R>) {
        P<A> c(a.p);
        c += b.p;
        same(t, c, add(x, y), "in-place sum");
    }
    if constexpr (std::is_same_v<B, R>) {
        P<B> d(b.p);
        d -= P<A>(a.p);
        same(t, d, sub(y, x), "in-place difference");
    }
    // Products: multiply without conversion first.
    model<R> prod;
    for (const auto &p : a.m) {
        for (const auto &q : b.m) {
            const R v = p.second * q.second;
            auto [it, ins] = prod.emplace(mono_mul(p.first, q.first), v);
            if (!ins) it->second = it->second + v;
        }
    }
    for (auto it = prod.begin(); it != prod.end();) it = czero(it->second) ? prod.erase(it) : std::next(it);
    same(t, both([](auto &&u, auto &&v) { return std::forward<decltype(u)>(u) * std::forward<decltype(v)>(v); }), prod, "product");
    same(t, a.p, a.m, "left operand");
    same(t, b.p, b.m, "right operand");
}

PBT_SUB(mixed, 40000, 1000000,
        "sums, differences and products of series with different coefficient types over equal and different symbol sets, "
        "with coefficients that vanish in the common type, against the converted models; non-trivial: two terms each")
{
    switch (t.below(6)) {
        case 0:
            return mixed_case<rational, double>(t);
        case 1:
            return mixed_case<double, rational>(t);
        case 2:
            return mixed_case<integer, rational>(t);
        case 3:
            return mixed_case<integer, double>(t);
        case 4:
            return mixed_case<int, integer>(t);
        default:
            return mixed_case<int, double>(t);
    }
}

template <typename C, typename N>
static void scalar_case(pbt::T &t, const N &n)
{
    const auto mask = gen_mask(t);
    const auto a = gen<C>(t, mask, t.scaled(6));
    using R = std::remove_cvref_t<decltype(std::declval<C>() + n)>;
    const auto x = convert<R>(a.m);
    const R v = R(C(0) + n);
    const auto c = constant<R>(v);
    PBT_LOG(t, "a=", show(a.m), " scalar ", n);
    t.nontrivial(a.m.size() > 1u);
    same(t, a.p + n, add(x, c), "p + n");
    same(t, n + a.p, add(x, c), "n + p");
    same(t, a.p - n, sub(x, c), "p - n");
    same(t, n - a.p, sub(c, x), "n - p");
    same(t, P<C>(a.p) - n, sub(x, c), "rvalue p - n");
    same(t, n - P<C>(a.p), sub(c, x), "n - rvalue p");
    model<R> pr;
    for (const auto &p : a.m) {
        const R w = p.second * n;
        if (!czero(w)) pr.emplace(p.first, w);
    }
    same(t, a.p * n, pr, "p * n");
    same(t, n * a.p, pr, "n * p");
    if (!(n == N(0))) {
        model<R> q;
        for (const auto &p : a.m) {
            const R w = p.second / n;
            if (!czero(w)) q.emplace(p.first, w);
        }
        same(t, a.p / n, q, "p / n");
        if constexpr (std::is_same_v<R, C>) {
            P<C> y(a.p);
            y /= n;
            same(t, y, q, "p /= n");
        }
    }
    if constexpr (std::is_same_v<R, C>) {
        P<C> y(a.p);
        y += n;
        same(t, y, add(x, c), "p += n");
        y -= n;
        same(t, y, x, "p -= n");
        y *= n;
        same(t, y, pr, "p *= n");
    }
    same(t, a.p, a.m, "operand");
    // A number on the left of a compound operation takes the value of a constant result.
    N z(n);
    if (a.m.empty() || (a.m.size() == 1u && a.m.begin()->first == mono{})) {
        z += a.p;
        PBT_CHECK(t, z == static_cast<N>(a.m.empty() ? v : R(v + a.m.begin()->second)), "n += constant");
    } else {
        PBT_THROWS(t, std::invalid_argument, z += a.p, "n += p");
        PBT_CHECK(t, z == n, "n after a failed n += p");
    }
}

PBT_SUB(scalars, 30000, 800000,
        "arithmetic of series with numbers of several types on both sides against the model; non-trivial: several terms")
{
    const auto n = t.sym(6);
    switch (t.below(7)) {
        case 0:
            return scalar_case<rational>(t, integer(n));
        case 1:
            return scalar_case<rational>(t, static_cast<int>(n));
        case 2:
            return scalar_case<integer>(t, static_cast<int>(n));
        case 3:
            return scalar_case<integer>(t, rational(n, 3));
        case 4:
            return scalar_case<double>(t, static_cast<double>(n) / 2);
        case 5:
            return scalar_case<double>(t, integer(n));
        default:
            return scalar_case<integer>(t, integer(n));
    }
}

PBT_SUB(ranks, 30000, 800000,
        "construction from numbers (with and without a symbol set), conversion back to numbers, wrapping a series as the "
        "coefficient of another and unwrapping it: exact when the series is a single coefficient, invalid_argument "
        "otherwise; non-trivial: not a single coefficient")
{
    using Q1 = P<rational>;
    using Q2 = P<Q1>;
    const auto mask = gen_mask(t);
    const auto a = gen<rational>(t, mask, 2);
    const auto n = t.sym(3);
    PBT_LOG(t, "a=", show(a.m), " n=", n);
    // Numbers.
    const Q1 c0(n), c1(rational(n, 2), to_ss(mask));
    same(t, c0, constant<rational>(rational(n)), "from a number");
    same(t, c1, constant<rational>(rational(n, 2)), "from a number and a symbol set");
    PBT_CHECK(t, c0.get_symbol_set().empty() && c1.get_symbol_set() == to_ss(mask), "symbol sets");
    PBT_CHECK(t, static_cast<rational>(c1) == rational(n, 2) && static_cast<integer>(c0) == n, "back to a number");
    const bool single = a.m.empty() || (a.m.size() == 1u && a.m.begin()->first == mono{});
    const rational val = a.m.empty() ? rational(0) : a.m.begin()->second;
    t.nontrivial(!single);
    if (single) {
        PBT_CHECK(t, static_cast<rational>(a.p) == val, "to a number");
        PBT_CHECK(t, static_cast<double>(a.p) == static_cast<double>(val), "to a double");
    } else {
        PBT_THROWS(t, std::invalid_argument, static_cast<rational>(a.p), "to a number");
        PBT_THROWS(t, std::invalid_argument, static_cast<int>(a.p), "to a number");
    }
    // One rank up and down.
    Q2 q(a.p);
    PBT_CHECK(t, q.size() == (a.m.empty() ? 0u : 1u) && q.is_single_cf(), "wrapped");
    if (!a.m.empty()) same(t, q.begin()->second, a.m, "wrapped coefficient");
    same(t, Q1(q), a.m, "unwrapped");
    Q2 q2(q);
    same(t, Q1(std::move(q2)), a.m, "unwrapped rvalue");
    q2 = q;
    PBT_CHECK(t, q2 == q, "assigned again");
    const Q2 q3(Q1(a.p));
    PBT_CHECK(t, q3 == q, "wrapped rvalue");
    // Two ranks at once, with another coefficient type.
    const P<P<integer>> iq(q);
    model<integer> im = convert<integer>(a.m);
    PBT_CHECK(t, iq.size() == (im.empty() ? 0u : 1u), "converted coefficient");
    if (!im.empty()) same(t, iq.begin()->second, im, "converted coefficient");
    // Not a single coefficient.
    mono e{};
    e[3] = 1;
    Q2 w;
    w.set_symbol_set(to_ss(8));
    w.add_term(make_key<K>(e, 8), a.p);
    if (!a.m.empty()) {
        PBT_THROWS(t, std::invalid_argument, Q1(w), "unwrapping a non-constant");
        PBT_THROWS(t, std::invalid_argument, Q1(std::move(w)), "unwrapping a non-constant rvalue");
    } else {
        same(t, Q1(w), a.m, "unwrapping zero");
    }
    // Arithmetic across ranks.
    same(t, Q1((q + a.p) - a.p), a.m, "sum across ranks");
    PBT_CHECK(t, (q + a.p) == (a.p + q) && (q * a.p) == (a.p * q) && (a.p - q).empty() && (q - q).empty(), "across ranks");
    same(t, Q1(q * a.p), mul(a.m, a.m), "product across ranks");
}

PBT_SUB(ranks_in_place, 20000, 600000,
        "sums, differences, products and comparisons in place between a series and a series that has such series as "
        "coefficients, both ways round: with the higher rank on the right the result must be a single coefficient again, "
        "otherwise invalid_argument with the target unchanged; non-trivial: the result has several terms")
{
    using Q1 = P<rational>;
    using Q2 = P<Q1>;
    const auto ma = gen_mask(t), mb = t.below(2) ? ma : gen_mask(t), mo = gen_mask(t);
    const auto a = gen<rational>(t, ma, 2), b = gen<rational>(t, mb, 2), c = gen<rational>(t, mb, 2);
    // q = b + c * s, as a series over coefficients; s in its own symbols or one.
    mono e{};
    for (unsigned i = 0; i < NS; ++i) {
        if ((mo & (1u << i)) && t.below(2)) e[i] = 1;
    }
    Q2 q;
    q.set_symbol_set(to_ss(mo));
    if (const auto n = static_cast<unsigned>(t.below(3))) q.set_n_segments(n);
    q.add_term(make_key<K>(mono{}, mo), b.p);
    const bool more = t.below(2);
    if (more) q.add_term(make_key<K>(e, mo), c.p);
    // The coefficient of one, and the rest.
    auto one = b.m;
    model<rational> rest;
    if (more && e == mono{}) one = add(b.m, c.m);
    else if (more) rest = c.m;
    const bool plus = t.below(2), mv = t.below(2);
    PBT_LOG(t, "a=", show(a.m), " q=", show(one), " + (", show(rest), ")*", show(e), plus ? " plus" : " minus");
    auto check2 = [&](const Q2 &x, const model<rational> &m1, const model<rational> &mr, const char *what) {
        const auto n = (m1.empty() ? 0u : 1u) + (mr.empty() ? 0u : 1u);
        PBT_CHECK(t, x.size() == n, what, ": ", x.size(), " terms, expected ", n);
        for (const auto &p : x) {
            const bool unit = obake::key_is_one(p.first, x.get_symbol_set());
            same(t, p.second, unit ? m1 : mr, what);
        }
    };
    check2(q, one, rest, "the series itself");
    const auto op = t.below(5);
    switch (op) {
        case 0:
        case 1: { // The higher rank on the left.
            const auto exp = plus ? add(one, a.m) : sub(one, a.m);
            t.nontrivial(exp.size() > 1u);
            Q2 x(q);
            Q2 *r = nullptr;
            if (plus) r = mv ? &(x += Q1(a.p)) : &(x += a.p);
            else r = mv ? &(x -= Q1(a.p)) : &(x -= a.p);
            PBT_CHECK(t, r == &x);
            check2(x, exp, rest, "in place");
            PBT_CHECK(t, x.get_symbol_set() == to_ss(mo), "symbol set");
            check2(plus ? Q2(mv ? Q2(q) + Q1(a.p) : q + a.p) : Q2(mv ? Q2(q) - Q1(a.p) : q - a.p), exp, rest, "binary");
            check2(plus ? Q2(mv ? Q1(a.p) + Q2(q) : a.p + q) : Q2(mv ? Q1(a.p) - Q2(q) : a.p - q), plus ? exp : neg(exp),
                   plus ? rest : neg(rest), "binary, swapped");
            break;
        }
        case 2:
        case 3: { // The higher rank on the right.
            const auto exp = plus ? add(a.m, one) : sub(a.m, one);
            t.nontrivial(exp.size() > 1u);
            Q1 x(a.p);
            auto f = [&] {
                Q1 *r = nullptr;
                if (plus) r = mv ? &(x += Q2(q)) : &(x += q);
                else r = mv ? &(x -= Q2(q)) : &(x -= q);
                PBT_CHECK(t, r == &x);
            };
            if (rest.empty()) {
                f();
                same(t, x, exp, "in place");
            } else {
                PBT_THROWS(t, std::invalid_argument, f(), "the result is not a single coefficient");
                if (!mv) same(t, x, a.m, "the target of a refused operation");
            }
            break;
        }
        default: {
            const auto exp = mul(one, a.m);
            t.nontrivial(exp.size() > 1u);
            Q2 x(q);
            if (mv) x *= Q1(a.p);
            else x *= a.p;
            check2(x, exp, mul(rest, a.m), "product in place");
            Q1 y(a.p);
            if (rest.empty()) {
                if (mv) y *= Q2(q);
                else y *= q;
                same(t, y, exp, "product in place");
            } else if (!a.m.empty()) {
                PBT_THROWS(t, std::invalid_argument, y *= q, "the result is not a single coefficient");
                same(t, y, a.m, "the target of a refused operation");
            }
        }
    }
    same(t, a.p, a.m, "operand");
    check2(q, one, rest, "operand");
    const bool eq = rest.empty() && one == a.m;
    PBT_CHECK(t, (q == a.p) == eq && (a.p == q) == eq && (q != a.p) != eq && (a.p != q) != eq, "comparison across ranks");
    PBT_CHECK(t, q == (Q2(q) + a.p) - a.p, "there and back");
}

PBT_SUB(huge, 8, 400,
        "conversions, mixed sums and arithmetic with numbers for polynomials of 15000 to 91125 terms in up to 4096 segments; non-trivial: always")
{
    t.nontrivial();
    const auto s = huge::gen(t);
    const auto c = huge::coefs(s);
    auto p = huge::make<P<int>>(s);
    const P<rational> r(p);
    huge::same(t, r, c, "conversion");
    PBT_CHECK(t, r.get_s_size() == s.segs && r.get_symbol_set() == p.get_symbol_set(), "segments, symbol set");
    auto sum = c, one = c;
    for (auto &x : sum) x *= 2;
    ++one[0];
    switch (t.below(4)) {
        case 0:
            huge::same(t, p + r, sum, "mixed sum");
            break;
        case 1:
            huge::same(t, 1 + r, one, "sum with a number");
            huge::same(t, r * 2, sum, "product with a number");
            break;
        case 2: {
            P<rational> h(r);
            h /= 3;
            huge::same(t, P<int>(h * 3), c, "back");
            h *= 2;
            // 2/3, 4/3, 6/3, 8/3, 10/3: what is below one vanishes.
            auto w = c;
            for (auto &x : w) x = x * 2 / 3;
            huge::same(t, P<int>(std::move(h)), w, "conversion in which terms vanish");
            break;
        }
        default:
            huge::same(t, P<double>(std::move(p)), c, "conversion of an rvalue");
    }
}
