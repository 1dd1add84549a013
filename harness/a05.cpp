// A05: powers. x**n is the n-fold product whatever was computed before it (the process-wide cache of natural powers is
// invisible), single terms take negative exponents, and unusable exponents are rejected.
#include "nest_model.hpp"

#include <obake/math/pow.hpp>
#include <obake/math/negate.hpp>

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
using P2 = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 2>, rational>;
using P2 = obake::polynomial<obake::d_packed_monomial<std::int64_t, 2>, integer>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint64_t>, double>;
using P2 = obake::polynomial<obake::packed_monomial<std::uint64_t>, integer>;
#elif VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 3>, integer>;
using P2 = obake::polynomial<obake::d_packed_monomial<std::int64_t, 3>, rational>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;

template <typename R>
static P do_pow(pbt::T &t, const R &p, long n)
{
    switch (t.below(n < 0 ? 3u : 6u)) {
        case 0:
            return obake::pow(p, static_cast<int>(n));
        case 1:
            return obake::pow(p, static_cast<long long>(n));
        case 2:
            return obake::pow(p, integer(n));
        case 3:
            return obake::pow(p, static_cast<unsigned>(n));
        case 4:
            return obake::pow(p, static_cast<unsigned char>(n));
        default:
            return obake::pow(P(p), static_cast<unsigned long>(n));
    }
}

template <typename U>
static model<U> small_model(pbt::T &t, mask_t mask, std::size_t nmax)
{
    auto m = gen_model<U>(t, mask, nmax, erange{sg ? -2 : 0, 2});
    if constexpr (std::is_same_v<U, double>) {
        // Keep every power exact in double precision.
        for (auto &p : m) p.second = p.second > 0 ? double(1 + (long(p.second) & 3)) : -double(1 + (long(-p.second) & 3));
    }
    return m;
}

namespace
{
struct base_t {
    model<C> m;
    mask_t mask;
    P p;
};
} // namespace

PBT_SUB(history, 12000, 400000,
        "a history of powers of a handful of closely related bases (same terms with other coefficients, wider symbol "
        "sets, other segmentation or insertion order, negated or modified in place, cleared cache), each compared with "
        "repeated model multiplication; non-trivial: at least two powers of multi-term bases with exponent >= 2")
{
    std::vector<base_t> bs;
    const auto mask = gen_mask(t) | (t.below(8) ? 8u : 0u);
    auto m0 = small_model<C>(t, mask, 4);
    bs.push_back({m0, mask, build<P>(m0, mask)});
    const auto nops = 2u + t.below(10);
    unsigned interesting = 0;
    for (std::uint64_t op = 0; op < nops; ++op) {
        auto &b = t.pick(bs);
        switch (t.below(10)) {
            case 0: { // same keys, other coefficients
                base_t c{b};
                for (auto &q : c.m) {
                    if (t.below(2)) q.second = q.second + C(1);
                }
                for (auto it = c.m.begin(); it != c.m.end();) it = czero(it->second) ? c.m.erase(it) : std::next(it);
                c.p = build<P>(c.m, c.mask, static_cast<unsigned>(t.below(3)));
                bs.push_back(c);
                break;
            }
            case 1: { // wider symbol set
                base_t c{b};
                c.mask |= gen_mask(t);
                c.p = build<P>(c.m, c.mask);
                bs.push_back(c);
                break;
            }
            case 2: { // in-place changes
                base_t c{b};
                obake::negate(c.p);
                c.m = neg(c.m);
                b = c;
                break;
            }
            case 3: { // same coefficients, symbols exchanged: same keys in another symbol set
                base_t c;
                c.mask = 0;
                std::array<unsigned, NS> to{};
                unsigned last = NS;
                for (unsigned j = NS; j-- > 0;) {
                    if (b.mask & (1u << j)) to[j] = --last, c.mask |= 1u << last;
                }
                for (const auto &q : b.m) {
                    mono e{};
                    for (unsigned j = 0; j < NS; ++j) {
                        if (b.mask & (1u << j)) e[to[j]] = q.first[j];
                    }
                    c.m.emplace(e, q.second);
                }
                c.p = build<P>(c.m, c.mask);
                bs.push_back(c);
                break;
            }
            case 4:
                if (t.chance(1, 3)) {
                    PBT_LOG(t, "clear cache");
                    obake::customisation::internal::clear_series_pow_map();
                }
                break;
            default: {
                const auto n = static_cast<unsigned>(t.below(7));
                PBT_LOG(t, "(", show(b.m), " over ", b.mask, ")**", n);
                same(t, do_pow(t, b.p, n), pow(b.m, n), "power");
                same(t, b.p, b.m, "base");
                if (b.m.size() > 1u && n >= 2u) ++interesting;
            }
        }
    }
    t.nontrivial(interesting >= 2u);
}

PBT_SUB(laws, 6000, 200000,
        "x**(m+n) = x**m * x**n, (x*y)**n = x**n * y**n, (x**m)**n = x**(m*n), also with a base of another coefficient "
        "type interleaved; non-trivial: x has several terms and m, n >= 1")
{
    const auto ma = gen_mask(t), mb = gen_mask(t);
    const auto a = small_model<C>(t, ma, 4), b = small_model<C>(t, mb, 3);
    const auto x = build<P>(a, ma, static_cast<unsigned>(t.below(3))), y = build<P>(b, mb);
    const int m = static_cast<int>(t.below(4)), n = static_cast<int>(t.below(4));
    t.nontrivial(a.size() > 1u && m && n);
    PBT_LOG(t, "x=", show(a), " y=", show(b), " m=", m, " n=", n);
    same(t, P(obake::pow(x, m + n)), mul(to_model(P(obake::pow(x, m))), to_model(P(obake::pow(x, n)))), "x**(m+n)");
    // The same terms with another coefficient type must not be confused.
    model<obake::series_cf_t<P2>> a2;
    for (const auto &q : a) add_to(a2, q.first, obake::series_cf_t<P2>(static_cast<long>(3)));
    const auto x2 = build<P2>(a2, ma);
    same(t, P2(obake::pow(x2, n)), pow(a2, static_cast<unsigned>(n)), "other coefficient type");
    same(t, P(obake::pow(P(x * y), n)), mul(pow(a, static_cast<unsigned>(n)), pow(b, static_cast<unsigned>(n))), "(x*y)**n");
    if (m * n <= 4) {
        same(t, P(obake::pow(P(obake::pow(x, m)), n)), pow(a, static_cast<unsigned>(m * n)), "(x**m)**n");
    }
}

PBT_SUB(special, 20000, 600000,
        "single terms to negative and large exponents, constants, zero to the power of zero, and exponents that are not "
        "natural numbers for multi-term bases (invalid_argument, nothing changed); non-trivial: negative exponent")
{
    const auto mask = gen_mask(t);
    auto m = small_model<C>(t, mask, 3);
    const auto n = static_cast<int>(t.sym(9));
    const auto p = build<P>(m, mask);
    t.nontrivial(n < 0);
    PBT_LOG(t, "(", show(m), " over ", mask, ")**", n);
    const bool constant_p = m.empty() || (m.size() == 1u && m.begin()->first == mono{});
    if (m.size() > 1u) {
        if (n < 0) {
            PBT_THROWS(t, std::invalid_argument, do_pow(t, p, n), "negative exponent");
            PBT_THROWS(t, std::invalid_argument, obake::pow(p, integer(1) << 40), "huge exponent");
        }
    } else if (m.size() == 1u) {
        t.label("single term");
        if (n >= 0) {
            same(t, do_pow(t, p, n), pow(m, static_cast<unsigned>(n)), "single term");
        } else if (sg || constant_p) {
            const C c = m.begin()->second;
            if constexpr (!std::is_same_v<C, integer>) {
                C r(1);
                for (int i = 0; i < -n; ++i) r = r * c;
                model<C> exp;
                mono e{};
                for (unsigned j = 0; j < NS; ++j) e[j] = m.begin()->first[j] * n;
                exp.emplace(e, C(1) / r);
                const auto r1 = to_model(do_pow(t, p, n));
                if constexpr (std::is_same_v<C, double>) {
                    PBT_CHECK(t, r1.size() == 1u && r1.begin()->first == e
                                     && std::abs(r1.begin()->second * r - 1.) < 1e-12, show(r1));
                } else {
                    PBT_CHECK(t, r1 == exp, "got ", show(r1), " expected ", show(exp));
                }
            } else if (c == 1 || c == -1) {
                model<C> exp;
                mono e{};
                for (unsigned j = 0; j < NS; ++j) e[j] = m.begin()->first[j] * n;
                exp.emplace(e, (n % 2) ? c : C(1));
                same(t, do_pow(t, p, n), exp, "unit");
            }
        }
    } else {
        t.label("zero base");
        if (n >= 0) same(t, do_pow(t, p, n), pow(m, static_cast<unsigned>(n)), "zero");
    }
    same(t, p, m, "base");
}

template <typename E>
static void real_exponent(pbt::T &t, const P &p, const model<C> &m, E e)
{
    if constexpr (obake::is_exponentiable_v<const P &, const E &>) {
        using R = decltype(obake::pow(p, e));
        const auto call = [&] { return t.below(2) ? R(obake::pow(p, e)) : R(obake::pow(P(p), e)); };
        const bool constant_p = m.empty() || (m.size() == 1u && m.begin()->first == mono{});
        if (constant_p) {
            const C c = m.empty() ? C(0) : m.begin()->second;
            const auto r = call();
            const obake::series_cf_t<R> x = obake::pow(c, e);
            const double d = static_cast<double>(x), w = std::pow(static_cast<double>(c), static_cast<double>(e));
            // The value of the power of the coefficient itself: against the C library.
            PBT_CHECK(t, sizeof(E) == 4u || (std::isnan(w) && std::isnan(d)) || std::abs(d - w) <= 1e-5 * std::abs(w) || d == w, d, " for ", w);
            if (std::isnan(d)) return;
            t.label("constant to a real power");
            if (x == 0) PBT_CHECK(t, r.empty(), "power of zero");
            else PBT_CHECK(t, r.size() == 1u && r.begin()->second == x && r == x, "power of a constant");
        } else if (e == 0) {
            t.label("zero exponent");
            const auto r = call();
            PBT_CHECK(t, r == 1 && r.size() == 1u && r.get_symbol_set().empty(), "power of zero exponent");
        } else {
            t.label("real power refused");
            PBT_THROWS(t, std::invalid_argument, call(), "real exponent");
        }
    } else {
        t.label("not available");
    }
}

PBT_SUB(real, 4000, 100000,
        "exponents of floating point type: a constant gives the power of its coefficient, anything to the power of zero "
        "is one, every other base is refused with invalid_argument; non-trivial: a base other than zero and an exponent "
        "other than zero")
{
    const auto mask = gen_mask(t);
    auto m = small_model<C>(t, t.below(2) ? mask : 0u, 3);
    if constexpr (!sg) {
        if (t.below(4) == 0u) m.clear();
    }
    const auto p = build<P>(m, mask, static_cast<unsigned>(t.below(3)));
    const double e = t.below(8) == 0u ? 0. : static_cast<double>(t.sym(9)) / (1 << t.below(3));
    if (m.empty() && e < 0) return;
    PBT_LOG(t, "(", show(m), ")**", e);
    t.nontrivial(!m.empty() && e != 0);
    if (t.below(3)) real_exponent(t, p, m, e);
    else real_exponent(t, p, m, static_cast<float>(e));
    same(t, p, m, "base");
}

using Q = obake::polynomial<K, P>;
PBT_SUB(nested, 5000, 150000,
        "a history of powers of closely related polynomials with polynomial coefficients (the same coefficient over more "
        "symbols, symbols of the two levels exchanged, one coefficient changed), each compared with repeated model "
        "multiplication; non-trivial: two powers of bases of several terms with exponent >= 2")
{
    const erange e{sg ? -1 : 0, 2};
    struct nb {
        Q q;
        nmodel<C> m;
    };
    std::vector<nb> bs;
    const auto tame = [](nmodel<C> &m) {
        if constexpr (std::is_same_v<C, double>) {
            for (auto &p : m) p.second = p.second > 0 ? double(1 + (long(p.second) & 3)) : -double(1 + (long(-p.second) & 3));
        }
        (void)m;
    };
    const auto make = [&](const nmodel<C> &m, mask_t mo, mask_t mi) {
        for (const auto &p : m) {
            for (unsigned j = 0; j < NS; ++j) {
                if (p.first[j] != 0) mo |= 1u << j;
                if (p.first[NS + j] != 0) mi |= 1u << j;
            }
        }
        std::map<mono, model<C>> g;
        for (const auto &p : m) g[outer(p.first)].emplace(inner(p.first), p.second);
        Q q;
        q.set_symbol_set(to_ss(mo));
        for (const auto &p : g) q.add_term(make_key<K>(p.first, mo), build<P>(p.second, mi));
        return q;
    };
    {
        auto g = gen_nested<Q>(t, gen_mask(t) | (t.below(4) ? 1u : 0u), gen_mask(t) | (t.below(4) ? 8u : 0u), 3, 2, e);
        tame(g.m);
        bs.push_back({make(g.m, g.mo, g.mi), g.m});
    }
    const auto nops = 2u + t.below(8);
    unsigned interesting = 0;
    for (std::uint64_t op = 0; op < nops; ++op) {
        auto c = t.pick(bs);
        switch (t.below(8)) {
            case 0: // more symbols somewhere
                c.q = make(c.m, gen_mask(t), gen_mask(t));
                bs.push_back(c);
                break;
            case 1: { // the levels exchanged
                nmodel<C> r;
                for (const auto &p : c.m) r.emplace(both(inner(p.first), outer(p.first)), p.second);
                c.m = r;
                c.q = make(r, 0, 0);
                bs.push_back(c);
                break;
            }
            case 2: // one coefficient changed
                if (!c.m.empty()) {
                    auto it = c.m.begin();
                    std::advance(it, static_cast<std::ptrdiff_t>(t.below(c.m.size())));
                    it->second = it->second + C(1);
                    if (czero(it->second)) it->second = C(1);
                    c.q = make(c.m, 0, 0);
                    bs.push_back(c);
                }
                break;
            case 3:
                if (t.chance(1, 3)) obake::customisation::internal::clear_series_pow_map();
                break;
            default: {
                const auto n = static_cast<unsigned>(t.below(5));
                PBT_LOG(t, "(", show(c.m), ")**", n);
                nmodel<C> exp = lift(constant(C(1)));
                for (unsigned i = 0; i < n; ++i) exp = mul(exp, c.m);
                switch (t.below(3)) {
                    case 0:
                        nsame(t, Q(obake::pow(c.q, static_cast<int>(n))), exp, "power");
                        break;
                    case 1:
                        nsame(t, Q(obake::pow(c.q, integer(n))), exp, "power");
                        break;
                    default:
                        nsame(t, Q(obake::pow(Q(c.q), n)), exp, "power");
                }
                nsame(t, c.q, c.m, "base");
                if (c.q.size() > 1u && n >= 2u) ++interesting;
            }
        }
    }
    t.nontrivial(interesting >= 2u);
}

PBT_SUB(high, 60, 2500,
        "a history of up to four powers, with exponents of up to 300 (60 for floating point), of two bases of two or three terms "
        "which may be equal, against repeated multiplication; non-trivial: an exponent above 20")
{
    constexpr bool fp = std::is_same_v<C, double>;
    const mask_t mask = t.below(2) ? 0x12 : 0x08;
    struct base1 {
        std::array<int, 3> c;
        P p;
    };
    std::vector<base1> bs;
    const auto mon = [&](long k) {
        mono e{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) e[j] = k;
        }
        return e;
    };
    for (int i = 0; i < 2; ++i) {
        base1 b;
        for (auto &x : b.c) x = fp ? static_cast<int>(t.below(2)) : static_cast<int>(t.sym(2));
        b.c[1] = 1;
        if (fp && b.c[0] && b.c[2]) b.c[2] = 0;
        model<C> m;
        for (int k = 0; k < 3; ++k) add_to(m, mon(k), C(b.c[static_cast<unsigned>(k)]));
        b.p = build<P>(m, mask, static_cast<unsigned>(t.below(3)));
        bs.push_back(b);
    }
    bool high = false;
    for (std::uint64_t i = 0, s = 1u + t.below(4); i < s; ++i) {
        const auto &b = bs[t.below(2)];
        const auto n = t.below(3) ? t.below(fp ? 50 : 70) : t.below(fp ? 50 : 300);
        high = high || n > 20u;
        PBT_LOG(t, "(", b.c[0], " + ", b.c[1], "*x + ", b.c[2], "*x**2)**", n);
        std::vector<C> v{C(1)};
        for (std::uint64_t k = 0; k < n; ++k) {
            std::vector<C> w(v.size() + 2u, C(0));
            for (std::size_t j = 0; j < v.size(); ++j) {
                for (std::size_t l = 0; l < 3u; ++l) {
                    if (b.c[l] != 0) w[j + l] += v[j] * C(b.c[l]);
                }
            }
            v = std::move(w);
        }
        model<C> m;
        for (std::size_t j = 0; j < v.size(); ++j) {
            if (!czero(v[j])) m.emplace(mon(static_cast<long>(j)), v[j]);
        }
        same(t, n < 256u ? do_pow(t, b.p, static_cast<long>(n)) : P(obake::pow(b.p, static_cast<short>(n))), m, "power");
    }
    t.nontrivial(high);
}

PBT_SUB(bases, 30, 1200,
        "powers of hundreds of different bases, then of the same bases again in another order; non-trivial: always")
{
    const mask_t mask = 0x12;
    const auto n = 100u + t.below(900), stride = 1u + 2u * t.below(50), power = 2u + t.below(2);
    PBT_LOG(t, n, " bases, stride ", stride);
    t.nontrivial();
    const auto check = [&](std::uint64_t i) {
        // 1 + c * x**d with a different pair (c, d) each time.
        const auto c = 1 + static_cast<long>(i % 29u), d = 1 + static_cast<long>(i / 29u);
        model<C> m, r;
        mono e{};
        add_to(m, e, C(1));
        e[1] = d;
        add_to(m, e, C(c));
        const P p = build<P>(m, mask);
        e[1] = 0;
        C b(1);
        for (long k = 0; k <= static_cast<long>(power); ++k) {
            add_to(r, e, b);
            b *= C(c) * C(static_cast<long>(power) - k);
            b /= C(k + 1);
            e[1] += d;
        }
        same(t, P(obake::pow(p, static_cast<unsigned>(power))), r, "power");
    };
    for (std::uint64_t i = 0; i < n; ++i) check(i);
    for (std::uint64_t i = 0; i < n; ++i) check(i * stride % n);
}
