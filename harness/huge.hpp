// Series of tens of thousands of terms, in any number of segments. Which terms there are follows from an index, so that no
// reference container is needed: the term number i (of B**3) has the exponents i % B, i / B % B, i / B / B.
#ifndef HUGE_HPP
#define HUGE_HPP

#include "poly_model.hpp"

namespace huge
{
inline namespace PM_INNER
{

using namespace pm;

constexpr unsigned B = 45, ALL = B * B * B;
constexpr mask_t MASK = 0x1a;

inline mono mono_of(unsigned i)
{
    mono e{};
    e[1] = i % B;
    e[3] = i / B % B;
    e[4] = i / B / B;
    return e;
}

// What is present: the terms number first + k * stride (modulo ALL) for k < n, with small coefficients.
struct shape {
    unsigned n, first, stride, segs;
    unsigned coef(unsigned i) const
    {
        return 1u + (i * 7u + stride) % 5u;
    }
};

inline shape gen(pbt::T &t)
{
    shape s{};
    // The numbers of terms around the powers of two matter most.
    static constexpr unsigned sizes[] = {65534, 65535, 65536, 65537, 70000, 32768, 40000, 20000, ALL};
    s.n = t.below(3) ? sizes[t.below(std::size(sizes))] : 15000u + static_cast<unsigned>(t.below(ALL - 15000u));
    s.first = static_cast<unsigned>(t.below(ALL));
    // Coprime to ALL = 3**6 * 5**3.
    static constexpr unsigned strides[] = {1, 2, 7, 46, 2026, 31, 90001, 44};
    s.stride = strides[t.below(std::size(strides))];
    s.segs = static_cast<unsigned>(t.below(13));
    PBT_LOG(t, s.n, " terms, first ", s.first, " stride ", s.stride, " 2**", s.segs, " segments");
    return s;
}

template <typename P>
P make(const shape &s)
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    P p;
    p.set_symbol_set(to_ss(MASK));
    p.set_n_segments(s.segs);
    for (unsigned k = 0; k < s.n; ++k) {
        const auto i = static_cast<unsigned>((s.first + static_cast<std::uint64_t>(k) * s.stride) % ALL);
        p.add_term(make_key<K>(mono_of(i), MASK), C(static_cast<int>(s.coef(i))));
    }
    return p;
}

// The coefficients by index, 0 where there is no term.
inline std::vector<int> coefs(const shape &s)
{
    std::vector<int> r(ALL);
    for (unsigned k = 0; k < s.n; ++k) {
        const auto i = static_cast<unsigned>((s.first + static_cast<std::uint64_t>(k) * s.stride) % ALL);
        r[i] = static_cast<int>(s.coef(i));
    }
    return r;
}

// The index of a key.
template <typename K>
unsigned index(const K &k, const std::vector<unsigned> &pos)
{
    const auto v = key_traits<K>::unpack(k, static_cast<unsigned>(pos.size()));
    unsigned long long r = 0;
    for (std::size_t j = 0; j < v.size(); ++j) {
        const auto x = static_cast<unsigned long long>(v[j]);
        if (x >= B || (x != 0 && pos[j] == 0)) return ALL;
        r += x * pos[j];
    }
    return r < ALL ? static_cast<unsigned>(r) : ALL;
}
inline std::vector<unsigned> positions(const obake::symbol_set &ss)
{
    std::vector<unsigned> pos;
    for (const auto &s : ss) {
        const auto i = sym_idx(s);
        pos.push_back(i == 1u ? 1u : i == 3u ? B : i == 4u ? B * B : 0u);
    }
    return pos;
}

template <typename P>
void same(pbt::T &t, const P &p, const std::vector<int> &c, const char *what)
{
    using C = obake::series_cf_t<P>;
    std::size_t n = 0, expected = 0;
    for (auto x : c) expected += x != 0;
    const auto pos = positions(p.get_symbol_set());
    std::vector<bool> seen(ALL);
    std::size_t k = 0;
    for (const auto &term : p) {
        ++n;
        const auto i = index(term.first, pos);
        PBT_CHECK(t, i < ALL && !seen[i], what, ": a term which does not belong there, or twice");
        seen[i] = true;
        if (!(term.second == C(c[i]))) t.fail(pbt::cat(what, ": the coefficient of term ", i, " is wrong"));
        if (++k % 61u == 0u) {
            const auto it = p.find(term.first);
            PBT_CHECK(t, it != p.end() && &*it == &term, what, ": a stored term is not found");
        }
    }
    PBT_CHECK(t, n == expected && p.size() == expected && p.empty() == (expected == 0), what, ": ", n, " terms, size ", p.size(),
              ", expected ", expected);
}

// The container itself.
template <typename P>
void container(pbt::T &t)
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    const auto s = gen(t);
    auto c = coefs(s);
    auto p = make<P>(s);
    same(t, p, c, "built");
    PBT_CHECK(t, p.get_s_size() == s.segs, "segments");
    PBT_CHECK(t, p._get_s_table().size() == (std::size_t(1) << s.segs), "tables");
    PBT_CHECK(t, !p.is_single_cf(), "is_single_cf");
    P none;
    none.set_n_segments(s.segs);
    std::size_t bytes = obake::byte_size(none);
    for (const auto &x : p) {
        bytes += obake::byte_size(x.first) + obake::byte_size(x.second) + (sizeof(x) - sizeof(x.first) - sizeof(x.second));
    }
    PBT_CHECK(t, obake::byte_size(p) == bytes, "byte_size ", obake::byte_size(p), " expected ", bytes);
    std::size_t tot = 0;
    for (const auto &tab : p._get_s_table()) tot += tab.size();
    PBT_CHECK(t, tot == p.size(), "sizes of the tables");
    const auto st = p.table_stats();
    PBT_CHECK(t, st.find("terms             : " + std::to_string(s.n) + "\n") != std::string::npos, st);
    // Remove two thirds, then what is not there is not found.
    for (unsigned i = 0; i < ALL; ++i) {
        if (i % 3u == 0u || c[i] == 0) continue;
        const auto k = make_key<K>(mono_of(i), MASK);
        p.template add_term<false>(k, C(c[i]));
        c[i] = 0;
        if (i % 61u == 0u) PBT_CHECK(t, p.find(k) == p.end(), "a removed term is still there");
    }
    same(t, p, c, "after removing terms");
    p.clear_terms();
    PBT_CHECK(t, p.empty() && p.begin() == p.end() && p.get_s_size() == s.segs, "after clear_terms()");
}

// Copies and moves.
template <typename P>
void values(pbt::T &t)
{
    const auto s = gen(t);
    const auto c = coefs(s);
    auto p = make<P>(s);
    P q(p);
    same(t, q, c, "copy");
    PBT_CHECK(t, q.get_s_size() == s.segs, "segments of the copy");
    auto twice = c;
    for (auto &x : twice) x *= 2;
    if (t.below(2)) p += p;
    else p = p + std::as_const(p);
    same(t, p, twice, "sum with itself");
    same(t, q, c, "the copy, after a change of the original");
    P r(std::move(p));
    same(t, r, twice, "moved");
    p = q;
    same(t, p, c, "assigned");
    swap(p, r);
    same(t, p, twice, "exchanged");
    same(t, r, c, "exchanged");
    switch (t.below(3)) {
        case 0:
            r -= r;
            break;
        case 1:
            r = r - r;
            break;
        default:
            r = std::move(r) - P(q);
    }
    PBT_CHECK(t, r.empty(), "difference with itself");
    same(t, q, c, "the copy");
}

// Sums and differences of two of them, over equal or different symbol sets.
template <typename P>
void sums(pbt::T &t)
{
    auto s = gen(t), s2 = gen(t);
    if (t.below(2)) s2.n = 1u + static_cast<unsigned>(t.below(20000));
    const auto a = coefs(s), b = coefs(s2);
    const auto p = make<P>(s);
    auto q = make<P>(s2);
    if constexpr (obake::is_polynomial_v<P>) {
        if (t.below(2)) q = obake::add_symbols(q, to_ss(1u << 2));
    }
    std::vector<int> sum(ALL), dif(ALL), rdif(ALL), neg(ALL);
    for (unsigned i = 0; i < ALL; ++i) {
        sum[i] = a[i] + b[i];
        dif[i] = a[i] - b[i];
        rdif[i] = b[i] - a[i];
        neg[i] = -a[i];
    }
    switch (t.below(5)) {
        case 0:
            same(t, p + q, sum, "sum");
            break;
        case 1:
            same(t, p - q, dif, "difference");
            break;
        case 2:
            same(t, q - P(p), rdif, "difference");
            break;
        case 3: {
            auto r = p;
            r += std::move(q);
            same(t, r, sum, "sum in place");
            r -= p;
            same(t, r, b, "and back");
            break;
        }
        default:
            same(t, -p, neg, "negation");
            same(t, q + (-p), rdif, "sum with the negation");
    }
    same(t, p, a, "operand");
}

// Equality does not depend on segments and the order of insertion.
template <typename P>
void equal(pbt::T &t)
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    const auto s = gen(t);
    const auto p = make<P>(s);
    const auto c = coefs(s);
    P q;
    q.set_symbol_set(to_ss(MASK));
    q.set_n_segments(static_cast<unsigned>(t.below(13)));
    for (unsigned i = ALL; i-- > 0;) {
        if (c[i] != 0) q.add_term(make_key<K>(mono_of(i), MASK), C(c[i]));
    }
    PBT_CHECK(t, p == q && q == p && !(p != q), "equal series");
    // One term more, one less, one with another coefficient.
    const auto i = static_cast<unsigned>((s.first + t.below(s.n) * s.stride) % ALL);
    const auto k = make_key<K>(mono_of(i), MASK);
    switch (t.below(3)) {
        case 0:
            q.template add_term<false>(k, C(c[i]));
            break;
        case 1:
            q.add_term(k, C(1));
            break;
        default: {
            auto e = mono_of(i);
            e[1] = B;
            q.add_term(make_key<K>(e, MASK), C(1));
        }
    }
    PBT_CHECK(t, p != q && q != p && !(p == q), "series which differ in one term");
}

// Filters, trimming and more symbols.
template <typename P>
void reshape(pbt::T &t)
{
    auto s = gen(t);
    if (t.below(2)) {
        // Only one symbol is used: few terms.
        s.n = B;
        s.first = 0;
        s.stride = 1;
    }
    const auto c = coefs(s);
    const auto p = make<P>(s);
    const auto pos = positions(p.get_symbol_set());
    const auto mod = 2u + static_cast<unsigned>(t.below(5));
    auto kept = c;
    for (unsigned i = 0; i < ALL; ++i) {
        if (i % mod == 1u) kept[i] = 0;
    }
    const auto keep = [&](const auto &term) { return index(term.first, pos) % mod != 1u; };
    same(t, obake::filtered(p, keep), kept, "filtered");
    auto q = p;
    obake::filter(q, keep);
    same(t, q, kept, "filter");
    if (static_cast<unsigned long long>(key_traits<obake::series_key_t<P>>::lims(mask_size(MASK | 0x25)).second) < B) return;
    const auto r = obake::add_symbols(p, to_ss(0x25));
    PBT_CHECK(t, r.get_symbol_set() == to_ss(MASK | 0x25), "symbol set");
    same(t, r, c, "add_symbols");
    const auto u = obake::trim(r);
    same(t, u, c, "trim");
    PBT_CHECK(t, u.get_symbol_set() == to_ss(s.n == B ? 2u : MASK), "trimmed symbol set");
    same(t, p, c, "operand");
}

// The exponents of a term, by symbol.
inline unsigned digit(unsigned i, unsigned j)
{
    return j == 1u ? i % B : j == 3u ? i / B % B : j == 4u ? i / B / B : 0u;
}
inline unsigned step(unsigned j)
{
    return j == 1u ? 1u : j == 3u ? B : B * B;
}
inline unsigned gen_sym(pbt::T &t)
{
    static constexpr unsigned s[] = {1, 3, 4};
    return s[t.below(3)];
}

#if defined(HUGE_CALCULUS)
// Derivatives, and derivatives of integrals.
template <typename P>
void calculus(pbt::T &t)
{
    const auto s = gen(t);
    const auto c = coefs(s);
    const auto p = make<P>(s);
    const auto j = gen_sym(t);
    std::vector<int> d(ALL);
    for (unsigned i = 0; i < ALL; ++i) {
        const auto x = digit(i, j);
        if (x != 0u) d[i - step(j)] = c[i] * static_cast<int>(x);
    }
    same(t, obake::diff(p, names[j]), d, "derivative");
    PBT_CHECK(t, obake::diff(p, names[2]).empty(), "derivative by another symbol");
    if constexpr (std::is_same_v<obake::series_cf_t<P>, rational>) {
        same(t, obake::diff(obake::integrate(p, names[j]), names[j]), c, "derivative of the integral");
    }
    same(t, p, c, "operand");
}
#endif

#if defined(HUGE_VALUES)
// Evaluation and substitution of one symbol.
template <typename P, typename V>
void plug(pbt::T &t)
{
    const auto s = gen(t);
    const auto c = coefs(s);
    const auto p = make<P>(s);
    const auto two = std::is_same_v<V, double> ? 0u : gen_sym(t);
    const auto at = [&](unsigned j) { return j == two && t.below(2) ? 2 : static_cast<int>(t.below(3)) - 1; };
    const long long v1 = at(1u), v3 = at(3u), v4 = at(4u);
    const auto pw = [](long long v, unsigned n) {
        long long r = 1;
        for (; n != 0u; --n) r *= v;
        return r;
    };
    long long sum = 0;
    for (unsigned i = 0; i < ALL; ++i) {
        if (c[i] != 0) sum += c[i] * pw(v1, digit(i, 1)) * pw(v3, digit(i, 3)) * pw(v4, digit(i, 4));
    }
    using C = obake::series_cf_t<P>;
    const obake::symbol_map<V> sm{{names[1], V(v1)}, {names[3], V(v3)}, {names[4], V(v4)}};
    PBT_CHECK(t, obake::evaluate(p, sm) == decltype(obake::evaluate(p, sm))(sum), "evaluated at ", v1, " ", v3, " ", v4);
    // Substitution: terms come together.
    const auto j = gen_sym(t);
    const int v = static_cast<int>(t.below(3)) - 1;
    std::vector<int> r(ALL);
    for (unsigned i = 0; i < ALL; ++i) {
        const auto x = digit(i, j);
        r[i - x * step(j)] += c[i] * static_cast<int>(pw(v, x));
    }
    same(t, obake::subs(p, obake::symbol_map<C>{{names[j], C(v)}}), r, "substituted");
    same(t, p, c, "operand");
}
#endif

#if defined(HUGE_DEGREES)
// Degrees and truncation.
template <typename P>
void degrees(pbt::T &t)
{
    const auto s = gen(t);
    const auto c = coefs(s);
    const auto p = make<P>(s);
    const auto parts = 1u + static_cast<unsigned>(t.below(7));
    obake::symbol_set ss;
    mask_t m = 0;
    for (unsigned k = 0; k < 3u; ++k) {
        const unsigned j = k == 0u ? 1u : k + 2u;
        if (parts & (1u << k)) m |= mask_t(1) << j;
    }
    ss = to_ss(m);
    const auto deg = [](unsigned i, mask_t x) {
        return (x & 2u ? digit(i, 1) : 0u) + (x & 8u ? digit(i, 3) : 0u) + (x & 16u ? digit(i, 4) : 0u);
    };
    unsigned tot = 0, part = 0;
    for (unsigned i = 0; i < ALL; ++i) {
        if (c[i] == 0) continue;
        tot = std::max(tot, deg(i, MASK));
        part = std::max(part, deg(i, m));
    }
    const auto rt = obake::degree(p);
    const auto rp = obake::p_degree(p, ss);
    PBT_CHECK(t, rt == static_cast<decltype(rt)>(tot), "degree ", tot);
    PBT_CHECK(t, rp == static_cast<decltype(rp)>(part), "partial degree ", part);
    const bool partial = t.below(2);
    const auto l = static_cast<unsigned>(t.below((partial ? part : tot) + 2u));
    auto kept = c;
    for (unsigned i = 0; i < ALL; ++i) {
        if (deg(i, partial ? m : MASK) > l) kept[i] = 0;
    }
    auto q = p;
    if (partial) obake::truncate_p_degree(q, l, ss);
    else obake::truncate_degree(q, l);
    same(t, q, kept, "truncated");
    same(t, p, c, "operand");
}
#endif

}
} // namespace huge

#endif
