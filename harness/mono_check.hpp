// Monomials against plain vectors of exponents, for every kind of key. The reference does its own decoding.
#ifndef MONO_CHECK_HPP
#define MONO_CHECK_HPP

#include <pbt.hpp>

#include <algorithm>
#include <cstdint>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/symbols.hpp>

namespace mono
{

using i128 = __int128_t;

inline std::string str(i128 v)
{
    if (v == 0) return "0";
    std::string s;
    const bool neg = v < 0;
    while (v != 0) {
        const int d = static_cast<int>(v % 10);
        s += static_cast<char>('0' + (d < 0 ? -d : d));
        v /= 10;
    }
    if (neg) s += '-';
    return std::string(s.rbegin(), s.rend());
}

template <typename K>
struct traits;

// Decode a packed value of n components with exact arithmetic.
template <typename I>
inline std::vector<I> decode(i128 code, unsigned n)
{
    std::vector<I> r;
    if (n == 0u) {
        if (code != 0) throw pbt::failure{"a nonzero packed value without components"};
        return r;
    }
    const auto l = obake::detail::kpack_get_lims<I>(n);
    const i128 width = i128(l.second) - l.first + 1;
    i128 off = 0, w = 1;
    for (unsigned i = 0; i < n; ++i) {
        off += w * -i128(l.first);
        w *= width;
    }
    i128 rest = code + off;
    if (rest < 0 || rest >= w) throw pbt::failure{"a packed value out of range: " + str(code)};
    for (unsigned i = 0; i < n; ++i) {
        r.push_back(static_cast<I>(rest % width + l.first));
        rest /= width;
    }
    return r;
}

template <typename I>
inline i128 encode(const std::vector<I> &v, unsigned b, unsigned e, unsigned n)
{
    const auto l = obake::detail::kpack_get_lims<I>(n);
    const i128 width = i128(l.second) - l.first + 1;
    i128 r = 0, w = 1;
    for (unsigned i = b; i < e; ++i) {
        r += w * v[i];
        w *= width;
    }
    return r;
}

template <typename I>
struct traits<obake::packed_monomial<I>> {
    using K = obake::packed_monomial<I>;
    using int_t = I;
    static constexpr bool dynamic = false;
    static constexpr unsigned max_n = sizeof(I) == 4u ? 10u : 21u;
    static std::pair<I, I> lims(unsigned n)
    {
        const auto l = obake::detail::kpack_get_lims<I>(n ? n : 1u);
        return {l.first, l.second};
    }
    static K make(const std::vector<I> &v)
    {
        return K(v.empty() ? I(0) : static_cast<I>(encode(v, 0, static_cast<unsigned>(v.size()), static_cast<unsigned>(v.size()))));
    }
    static std::vector<I> expos(const K &k, unsigned n)
    {
        return decode<I>(k.get_value(), n);
    }
};

template <typename I, unsigned P>
struct traits<obake::d_packed_monomial<I, P>> {
    using K = obake::d_packed_monomial<I, P>;
    using int_t = I;
    static constexpr bool dynamic = true;
    static constexpr unsigned max_n = 30;
    static std::pair<I, I> lims(unsigned)
    {
        const auto l = obake::detail::kpack_get_lims<I>(P);
        return {l.first, l.second};
    }
    static K make(const std::vector<I> &v)
    {
        K k;
        for (unsigned b = 0; b < v.size(); b += P) {
            k._container().push_back(static_cast<I>(encode(v, b, std::min<unsigned>(b + P, static_cast<unsigned>(v.size())), P)));
        }
        return k;
    }
    static std::vector<I> expos(const K &k, unsigned n)
    {
        const auto &c = k._container();
        if (c.size() != (n + P - 1u) / P) throw pbt::failure{"a dynamic monomial of the wrong length"};
        std::vector<I> r;
        for (const auto &x : c) {
            for (auto y : decode<I>(x, P)) {
                if (r.size() < n) {
                    r.push_back(y);
                } else if (y != 0) {
                    throw pbt::failure{"a nonzero exponent beyond the symbols"};
                }
            }
        }
        return r;
    }
};

// A free commutative monoid: evaluation records which value was raised to which power.
struct rec {
    std::map<int, i128> m;
    rec() = default;
    rec(int) {}
    explicit rec(int id, bool)
    {
        m[id] = 1;
    }
    rec &operator*=(const rec &o)
    {
        for (const auto &p : o.m) {
            if ((m[p.first] += p.second) == 0) m.erase(p.first);
        }
        return *this;
    }
    friend bool operator==(const rec &a, const rec &b)
    {
        return a.m == b.m;
    }
};
template <typename I>
    requires std::is_integral_v<I>
inline rec pow(const rec &r, const I &n)
{
    rec q;
    if (n != 0) {
        for (const auto &p : r.m) q.m[p.first] = p.second * n;
    }
    return q;
}

inline obake::symbol_set symbols(unsigned n)
{
    // Sorted names.
    std::vector<std::string> v;
    for (unsigned i = 0; i < n; ++i) {
        const auto d = std::to_string(i);
        v.push_back((i < 100u ? "s" : "sx") + std::string((i < 100u ? 2u : 4u) - d.size(), '0') + d);
    }
    return obake::symbol_set(v.begin(), v.end());
}

template <typename V>
inline std::string show(const V &v)
{
    std::string s = "[";
    for (auto x : v) s += str(static_cast<i128>(x)) + " ";
    return s + "]";
}

template <typename K>
struct checker {
    using tr = traits<K>;
    using I = typename tr::int_t;
    using vec = std::vector<I>;
    static constexpr bool sg = std::is_signed_v<I>;

    pbt::T &t;
    unsigned n;
    obake::symbol_set ss;
    I lmin, lmax;

    explicit checker(pbt::T &t_, unsigned mn = 0, bool wide = true) : t(t_)
    {
        n = mn + static_cast<unsigned>(t.below((t.below(4) == 0 ? tr::max_n : std::min(6u, tr::max_n)) + 1u - mn));
        // More symbols than a byte can count, from time to time.
        if (tr::dynamic && wide && n + 2u >= tr::max_n && t.below(2) == 0) n = 200u + static_cast<unsigned>(t.below(200));
        ss = symbols(n);
        const auto l = tr::lims(n);
        lmin = l.first;
        lmax = l.second;
    }

    // An exponent in the limits. how: 0 small, 1 any, biased to the edges.
    I expo(unsigned how)
    {
        if (how == 0) {
            const auto s = static_cast<std::int64_t>(std::min<std::uint64_t>(static_cast<std::uint64_t>(lmax), 4u));
            return static_cast<I>(sg ? t.sym(s) : static_cast<std::int64_t>(t.below(static_cast<std::uint64_t>(s) + 1u)));
        }
        switch (t.below(6)) {
            case 0:
                return I(0);
            case 1:
                return static_cast<I>(lmax - static_cast<I>(t.below(3)));
            case 2:
                return static_cast<I>(lmin + static_cast<I>(t.below(3)));
            case 3:
                return expo(0);
            case 4:
                return static_cast<I>(static_cast<I>(lmax / 2) + static_cast<I>(sg ? t.sym(1) : static_cast<std::int64_t>(t.below(2))));
            default:
                return t.range(lmin, lmax);
        }
    }
    vec expos(unsigned how)
    {
        vec v(n);
        for (auto &x : v) x = expo(t.below(4) == 0 ? 0 : how);
        return v;
    }
    K make(const vec &v)
    {
        return tr::make(v);
    }
    bool fits(i128 x) const
    {
        return x >= lmin && x <= lmax;
    }
    void expect(const K &k, const vec &v, const char *what)
    {
        const auto u = tr::expos(k, n);
        if (u != v) t.fail(pbt::cat(what, ": ", show(u), " expected ", show(v)));
        if (!(k == tr::make(v)) || (k != tr::make(v))) t.fail(pbt::cat(what, ": not canonical"));
    }

    template <typename J>
    void construct_from(const vec &v)
    {
        // The values as J, when they fit.
        std::vector<J> w;
        bool exact = true;
        for (auto x : v) {
            w.push_back(static_cast<J>(x));
            exact = exact && static_cast<i128>(w.back()) == static_cast<i128>(x);
        }
        if (!exact) return;
        expect(K(w.begin(), n), v, "from an iterator and a size");
        expect(K(w.begin(), w.end()), v, "from a pair of iterators");
        expect(K(w), v, "from a range");
        std::list<J> l(w.begin(), w.end());
        expect(K(l.begin(), n), v, "from a list iterator and a size");
        expect(K(l), v, "from a list");
        expect(K(l.begin(), l.end()), v, "from a pair of list iterators");
        std::forward_list<J> fl(w.begin(), w.end());
        expect(K(fl), v, "from a forward list");
        if (n == 3) expect(K{{w[0], w[1], w[2]}}, v, "from an initializer list");
        if (n == 1) expect(K{{w[0]}}, v, "from an initializer list");
        // Fewer than available.
        if (n > 0) {
            const auto m = static_cast<unsigned>(t.below(n));
            if (tr::dynamic) {
                const auto k = K(w.begin(), m);
                PBT_CHECK(t, tr::expos(k, m) == vec(v.begin(), v.begin() + m));
            }
        }
    }

    void construct()
    {
        const auto v = expos(1);
        PBT_LOG(t, "exponents ", show(v));
        t.nontrivial(n >= 2);
        expect(make(v), v, "reference");
        construct_from<I>(v);
        switch (t.below(6)) {
            case 0:
                construct_from<__int128_t>(v);
                break;
            case 1:
                construct_from<int>(v);
                break;
            case 2:
                construct_from<unsigned char>(v);
                break;
            case 3:
                construct_from<std::int64_t>(v);
                break;
            case 4:
                construct_from<std::uint64_t>(v);
                break;
            default: {
                std::vector<mppp::integer<1>> w;
                for (auto x : v) w.emplace_back(x);
                expect(K(w.begin(), n), v, "from multiprecision integers");
                expect(K(w), v, "from multiprecision integers");
            }
        }
        // The unit monomial.
        expect(K(ss), vec(n, I(0)), "from a symbol set");
        if (n == 0 || !tr::dynamic) {
            expect(K(), vec(n, I(0)), "default");
        }
        // One value out of range.
        if (n > 0) {
            std::vector<__int128_t> w(v.begin(), v.end());
            const auto i = t.below(n);
            const bool low = t.below(2) != 0;
            const i128 far = t.below(2) ? i128(t.below(3)) : i128(t.raw64());
            w[i] = low ? i128(lmin) - 1 - far : i128(lmax) + 1 + far;
            t.label("out of range");
            const bool in_type = w[i] >= std::numeric_limits<I>::min() && w[i] <= std::numeric_limits<I>::max();
            if (in_type) {
                PBT_THROWS(t, std::overflow_error, K(w.begin(), n));
                PBT_THROWS(t, std::overflow_error, K(w));
            } else {
                PBT_THROWS(t, obake::safe_cast_failure, K(w.begin(), n));
                PBT_THROWS(t, obake::safe_cast_failure, K(w));
            }
        }
        // Compatible with symbol sets of the right size.
        const auto k = make(v);
        PBT_CHECK(t, obake::key_is_compatible(k, ss), show(v));
        PBT_CHECK(t, !obake::key_is_zero(k, ss));
        PBT_CHECK(t, obake::key_is_one(k, ss) == (v == vec(n, I(0))), show(v));
        const auto m = static_cast<unsigned>(t.below(25));
        bool comp;
        if constexpr (tr::dynamic) {
            comp = k._container().size() == (m + K::psize - 1u) / K::psize;
        } else {
            if (m > tr::max_n) {
                comp = false;
            } else if (m == 0) {
                comp = k.get_value() == 0;
            } else {
                i128 lo = 0, hi = 0, w = 1;
                const auto l = tr::lims(m);
                for (unsigned i = 0; i < m; ++i) {
                    lo += w * l.first;
                    hi += w * l.second;
                    w *= i128(l.second) - l.first + 1;
                }
                comp = k.get_value() >= lo && k.get_value() <= hi;
            }
        }
        PBT_CHECK(t, obake::key_is_compatible(k, symbols(m)) == comp, show(v), " with ", m, " symbols");
        if constexpr (tr::dynamic) {
            // Garbage in the container.
            auto bad = k;
            if (!bad._container().empty()) {
                const auto c = t.edgy<I>();
                const auto j = t.below(bad._container().size());
                bad._container()[j] = c;
                i128 lo = 0, hi = 0, w = 1;
                for (unsigned i = 0; i < K::psize; ++i) {
                    lo += w * lmin;
                    hi += w * lmax;
                    w *= i128(lmax) - lmin + 1;
                }
                PBT_CHECK(t, obake::key_is_compatible(bad, ss) == (c >= lo && c <= hi), c);
            }
        } else {
            const auto c = t.edgy<I>();
            i128 lo = 0, hi = 0, w = 1;
            for (unsigned i = 0; i < n; ++i) {
                lo += w * lmin;
                hi += w * lmax;
                w *= i128(lmax) - lmin + 1;
            }
            PBT_CHECK(t, obake::key_is_compatible(K(c), ss) == (c >= lo && c <= hi), c);
            PBT_CHECK(t, K(c).get_value() == c);
        }
    }

    // Products, hashes, comparison.
    void product()
    {
        auto va = expos(1), vb = expos(1);
        // Bring the sum into the limits.
        for (unsigned i = 0; i < n; ++i) {
            if (i128(va[i]) + vb[i] > lmax) vb[i] = static_cast<I>(lmax - va[i]);
            if (i128(va[i]) + vb[i] < lmin) vb[i] = static_cast<I>(lmin - va[i]);
        }
        vec vs(n);
        for (unsigned i = 0; i < n; ++i) vs[i] = static_cast<I>(va[i] + vb[i]);
        t.nontrivial(n >= 2 && va != vb);
        PBT_LOG(t, show(va), " * ", show(vb));
        const auto a = make(va), b = make(vb);
        PBT_CHECK(t, (a == b) == (va == vb) && (a != b) == (va != vb), show(va), show(vb));
        K out(ss);
        obake::monomial_mul(out, a, b, ss);
        expect(out, vs, "product");
        expect(a, va, "left operand");
        expect(b, vb, "right operand");
        K out2(ss);
        obake::monomial_mul(out2, b, a, ss);
        PBT_CHECK(t, out2 == out);
        auto c = a;
        obake::monomial_mul(c, c, b, ss);
        expect(c, vs, "product in place of the left operand");
        c = b;
        obake::monomial_mul(c, a, c, ss);
        expect(c, vs, "product in place of the right operand");
        bool sq = true;
        vec vq(n);
        for (unsigned i = 0; i < n; ++i) {
            sq = sq && fits(i128(va[i]) * 2);
            vq[i] = static_cast<I>(va[i] + (sq ? va[i] : I(0)));
        }
        if (sq) {
            c = a;
            obake::monomial_mul(c, c, c, ss);
            expect(c, vq, "square in place");
        }
        // The hash is homomorphic: this is what multiplication of polynomials relies on.
        PBT_CHECK(t, (obake::is_homomorphically_hashable_monomial_v<K>), "type");
        PBT_CHECK(t, obake::hash(out) == obake::hash(a) + obake::hash(b), show(va), show(vb));
        PBT_CHECK(t, obake::hash(make(va)) == obake::hash(a));
        PBT_CHECK(t, obake::hash(K(ss)) == 0u);
        // Copies, moves.
        K d(a);
        PBT_CHECK(t, d == a && obake::hash(d) == obake::hash(a));
        d = b;
        expect(d, vb, "copy");
        K e(std::move(d));
        expect(e, vb, "move");
        d = a;
        std::swap(d, e);
        expect(d, vb, "swap");
        expect(e, va, "swap");
    }

    // Ranges of products: is every one of them representable?
    void ranges(bool large)
    {
        const auto na = large ? 4990 + static_cast<unsigned>(t.below(3000)) : static_cast<unsigned>(t.below(6));
        const auto nb = large ? (t.below(3) == 0 ? 4995 + static_cast<unsigned>(t.below(2000)) : 1 + static_cast<unsigned>(t.below(6)))
                              : static_cast<unsigned>(t.below(6));
        // Half the range or so, and one pair of exponents at the edge.
        auto small = [&]() {
            switch (t.below(3)) {
                case 0:
                    return static_cast<I>(lmax / 2);
                case 1:
                    return static_cast<I>(lmin / 2);
                default:
                    return t.range(static_cast<I>(lmin / 2), static_cast<I>(lmax / 2));
            }
        };
        std::vector<vec> a, b;
        // In the large case the draws are few: the exponents follow from a seed.
        std::uint64_t st = large ? t.raw64() : 0;
        auto next = [&]() {
            st = st * 6364136223846793005ull + 1442695040888963407ull;
            return st >> 33;
        };
        auto fill = [&](std::vector<vec> &r, unsigned m) {
            for (unsigned k = 0; k < m; ++k) {
                vec v(n);
                for (auto &x : v) {
                    if (large) {
                        x = static_cast<I>(static_cast<I>(next() % (static_cast<std::uint64_t>(lmax / 4) + 1u)));
                        if (sg && next() % 2u) x = static_cast<I>(-x);
                    } else {
                        x = small();
                    }
                }
                r.push_back(v);
            }
        };
        fill(a, na);
        fill(b, nb);
        // Place extremes whose sum is at the limit give or take one.
        if (n > 0 && na > 0 && nb > 0) {
            const auto places = t.below(3);
            for (std::uint64_t p = 0; p < places; ++p) {
                const auto i = t.below(n);
                const bool low = sg && t.below(2);
                const auto ia = t.below(na), ib = t.below(nb);
                const i128 lim = low ? i128(lmin) : i128(lmax);
                const i128 x = i128(low ? t.range(lmin, I(0)) : t.range(I(0), lmax));
                i128 y = lim - x + t.sym(1);
                y = std::min<i128>(std::max<i128>(y, lmin), lmax);
                a[ia][i] = static_cast<I>(x);
                b[ib][i] = static_cast<I>(y);
            }
        }
        // Exact: the extremes per exponent, and of the degrees for the keys which have no other guard.
        bool ok = true;
        if (na && nb) {
            for (unsigned i = 0; i < n; ++i) {
                i128 mxa = a[0][i], mna = mxa, mxb = b[0][i], mnb = mxb;
                for (const auto &v : a) mxa = std::max<i128>(mxa, v[i]), mna = std::min<i128>(mna, v[i]);
                for (const auto &v : b) mxb = std::max<i128>(mxb, v[i]), mnb = std::min<i128>(mnb, v[i]);
                ok = ok && mxa + mxb <= lmax && mna + mnb >= lmin;
            }
            const bool comp_ok = ok;
            if (tr::dynamic && n > 0) {
                auto ext = [](const std::vector<vec> &r, bool mx) {
                    bool first = true;
                    i128 e = 0;
                    for (const auto &v : r) {
                        i128 d = 0;
                        for (auto x : v) d += x;
                        if (first || (mx ? d > e : d < e)) e = d;
                        first = false;
                    }
                    return e;
                };
                ok = ok && ext(a, true) + ext(b, true) <= i128(std::numeric_limits<I>::max())
                     && ext(a, false) + ext(b, false) >= i128(std::numeric_limits<I>::min());
            }
            if (comp_ok && !ok) t.label("degree out of range");
            if (!comp_ok) t.label("exponent out of range");
        }
        t.nontrivial(na > 1 && nb > 1 && n > 1);
        std::vector<K> ka, kb;
        for (const auto &v : a) ka.push_back(make(v));
        for (const auto &v : b) kb.push_back(make(v));
        PBT_CHECK(t, obake::monomial_range_overflow_check(ka, kb, ss) == ok, "expected ", ok, ", sizes ", na, " ", nb);
        PBT_CHECK(t, obake::monomial_range_overflow_check(kb, ka, ss) == ok);
        if (t.below(4) == 0) {
            std::list<K> la(ka.begin(), ka.end()), lb(kb.begin(), kb.end());
            PBT_CHECK(t, obake::monomial_range_overflow_check(la, lb, ss) == ok);
            PBT_CHECK(t, obake::monomial_range_overflow_check(ka, lb, ss) == ok);
        }
    }

    // degree, partial degree, powers
    void degrees()
    {
        const auto v = expos(1);
        const auto k = make(v);
        t.nontrivial(n >= 2);
        PBT_LOG(t, "exponents ", show(v));
        auto check = [&](const char *what, const std::vector<I> &xs, auto f) {
            i128 d = 0;
            bool prefix_fits = true;
            for (auto x : xs) {
                d += x;
                prefix_fits = prefix_fits && d >= i128(std::numeric_limits<I>::min()) && d <= i128(std::numeric_limits<I>::max());
            }
            const bool exact = d >= i128(std::numeric_limits<I>::min()) && d <= i128(std::numeric_limits<I>::max());
            if (prefix_fits) {
                const auto r = f();
                PBT_CHECK(t, (std::is_same_v<decltype(f()), I>), "type");
                PBT_CHECK(t, r == d, what, " of ", show(v), " is ", r);
            } else if (!exact) {
                PBT_THROWS(t, std::overflow_error, f(), what);
            }
        };
        check("degree", v, [&] { return obake::key_degree(k, ss); });
        obake::symbol_idx_set si;
        vec sel;
        const bool sparse = t.below(2) != 0;
        for (unsigned i = 0; i < n; ++i) {
            if (t.below(sparse ? 4 : 2) == 0) {
                si.insert(i);
                sel.push_back(v[i]);
            }
        }
        check("partial degree", sel, [&] { return obake::key_p_degree(k, si, ss); });
        expect(k, v, "operand");
    }

    void powers()
    {
        const auto v = expos(t.below(3) ? 0u : 1u);
        const auto k = make(v);
        // An exponent which just fits, or does not.
        i128 m;
        switch (t.below(4)) {
            case 0:
                m = sg ? t.sym(4) : static_cast<i128>(t.below(5));
                break;
            case 1:
                m = t.sym(3);
                break;
            default: {
                m = t.sym(50);
                const i128 x = n ? i128(v[t.below(n)]) : i128(1);
                if (x != 0) {
                    m = lmax / (x < 0 ? -x : x) + t.sym(1);
                    if (sg && t.below(2)) m = -m;
                }
            }
        }
        t.nontrivial(n >= 2 && m > 1);
        PBT_LOG(t, show(v), " to the ", str(m));
        bool ok = true;
        vec r(n);
        for (unsigned i = 0; i < n; ++i) {
            // |v| and |m| are below 2**63 or so.
            const i128 p = i128(v[i]) * m;
            ok = ok && fits(p);
            r[i] = ok ? static_cast<I>(p) : I(0);
        }
        auto go = [&](const auto &e) {
            if (ok) {
                expect(obake::monomial_pow(k, e, ss), r, "power");
            } else {
                PBT_THROWS(t, std::overflow_error, obake::monomial_pow(k, e, ss), show(v), " to the ", str(m));
            }
        };
        const bool in64 = m >= std::numeric_limits<std::int64_t>::min() && m <= std::numeric_limits<std::int64_t>::max();
        switch (t.below(5)) {
            case 0:
                go(mppp::integer<1>(m));
                break;
            case 1:
                go(m);
                break;
            case 2:
                if (in64) go(static_cast<std::int64_t>(m));
                break;
            case 3:
                if (m >= 0 && m < 65536) go(static_cast<unsigned short>(m));
                break;
            default:
                go(mppp::rational<1>{mppp::integer<1>(m)});
                {
                    mppp::rational<1> q{mppp::integer<1>(m)};
                    q /= 2;
                    if (!q.get_den().is_one()) {
                        PBT_THROWS(t, std::invalid_argument, obake::monomial_pow(k, q, ss));
                    }
                }
        }
        expect(k, v, "operand");
    }

    void eval()
    {
        const auto v = expos(1);
        const auto k = make(v);
        t.nontrivial(n >= 2);
        obake::symbol_idx_map<rec> all, some;
        rec ea, es;
        vec rest = v;
        for (unsigned i = 0; i < n; ++i) {
            const rec r(100 + static_cast<int>(t.below(n)), true);
            all.emplace(i, r);
            ea *= pow(r, v[i]);
            if (t.below(2)) {
                some.emplace(i, r);
                es *= pow(r, v[i]);
                rest[i] = 0;
            }
        }
        PBT_LOG(t, "exponents ", show(v), ", ", some.size(), " replaced");
        PBT_CHECK(t, obake::key_evaluate(k, all, ss) == ea, show(v));
        const auto p = obake::monomial_subs(k, some, ss);
        PBT_CHECK(t, p.first == es, show(v));
        expect(p.second, rest, "the rest after substitution");
        // Actual numbers.
        bool small = true;
        for (auto x : v) small = small && x <= 6 && i128(x) >= -6;
        if (small) {
            obake::symbol_idx_map<mppp::rational<1>> num;
            mppp::rational<1> e(1);
            for (unsigned i = 0; i < n; ++i) {
                const mppp::rational<1> q(static_cast<int>(t.sym(3)) * 2 + 1, static_cast<int>(t.below(3)) + 1);
                num.emplace(i, q);
                for (int j = 0; j < static_cast<int>(v[i]); ++j) e *= q;
                for (int j = 0; j > static_cast<int>(v[i]); --j) e /= q;
            }
            PBT_CHECK(t, obake::key_evaluate(k, num, ss) == e, show(v));
        }
        expect(k, v, "operand");
    }

    void symbols_change()
    {
        auto v = expos(1);
        const auto k = make(v);
        PBT_LOG(t, "exponents ", show(v));
        // Trim identification: entries are cleared, never set.
        std::vector<int> flags(n), ref(n);
        for (unsigned i = 0; i < n; ++i) {
            flags[i] = t.below(3) != 0;
            ref[i] = v[i] != 0 ? 0 : flags[i];
        }
        obake::key_trim_identify(flags, k, ss);
        PBT_CHECK(t, flags == ref, show(v));
        // Trimming.
        obake::symbol_idx_set si;
        vec left;
        for (unsigned i = 0; i < n; ++i) {
            if (t.below(2)) {
                si.insert(i);
            } else {
                left.push_back(v[i]);
            }
        }
        const auto tk = obake::key_trim(k, si, ss);
        PBT_CHECK(t, tr::expos(tk, static_cast<unsigned>(left.size())) == left, show(v), " trimmed to ", show(left));
        PBT_CHECK(t, tk == tr::make(left));
        // Merging.
        obake::symbol_idx_map<obake::symbol_set> ins;
        vec merged;
        bool room = true;
        unsigned added = 0;
        const auto max_at = t.below(3) ? 3 : 8;
        for (unsigned i = 0; i <= n; ++i) {
            if (t.below(3) == 0) {
                const auto m = 1u + static_cast<unsigned>(t.below(static_cast<std::uint64_t>(max_at)));
                obake::symbol_set s;
                for (unsigned j = 0; j < m; ++j) s.insert("s" + std::to_string(i) + "_" + std::to_string(j));
                ins.emplace(i, s);
                merged.insert(merged.end(), m, I(0));
                added += m;
            }
            if (i < n) merged.push_back(v[i]);
        }
        t.nontrivial(n >= 2 && added >= 2 && !si.empty());
        const auto total = static_cast<unsigned>(merged.size());
        if (!tr::dynamic && total > tr::max_n) room = false;
        if (room) {
            const auto l = tr::lims(total);
            for (auto x : merged) room = room && x >= l.first && x <= l.second;
        }
        if (room) {
            const auto mk = obake::key_merge_symbols(k, ins, ss);
            PBT_CHECK(t, tr::expos(mk, total) == merged, show(v), " merged ", show(merged));
            PBT_CHECK(t, mk == tr::make(merged));
            // And back.
            obake::symbol_idx_set added_idx;
            unsigned at = 0;
            for (unsigned i = 0; i <= n; ++i) {
                const auto it = ins.find(i);
                if (it != ins.end()) {
                    for (std::size_t j = 0; j < it->second.size(); ++j) added_idx.insert(at++);
                }
                ++at;
            }
            PBT_CHECK(t, obake::key_trim(mk, added_idx, mono::symbols(total)) == k);
        } else {
            t.label("does not fit after merging");
            PBT_THROWS(t, std::overflow_error, obake::key_merge_symbols(k, ins, ss), show(v), " to ", total, " symbols");
        }
        expect(k, v, "operand");
    }

    void calculus()
    {
        if (n == 0) return;
        const auto v = expos(1);
        const auto k = make(v);
        const auto i = static_cast<obake::symbol_idx>(t.below(n));
        PBT_LOG(t, "exponents ", show(v), " symbol ", i);
        t.nontrivial(n >= 2 && v[i] != 0);
        auto r = v;
        if (v[i] == 0) {
            const auto d = obake::monomial_diff(k, i, ss);
            PBT_CHECK(t, d.first == 0, show(v));
        } else if (v[i] == lmin) {
            PBT_THROWS(t, std::overflow_error, obake::monomial_diff(k, i, ss));
        } else {
            const auto d = obake::monomial_diff(k, i, ss);
            PBT_CHECK(t, d.first == v[i], show(v), " factor ", d.first);
            r[i] = static_cast<I>(v[i] - 1);
            expect(d.second, r, "derivative");
        }
        r = v;
        if (sg && i128(v[i]) == -1) {
            PBT_THROWS(t, std::domain_error, obake::monomial_integrate(k, i, ss));
        } else if (v[i] == lmax) {
            PBT_THROWS(t, std::overflow_error, obake::monomial_integrate(k, i, ss));
        } else {
            const auto d = obake::monomial_integrate(k, i, ss);
            r[i] = static_cast<I>(v[i] + 1);
            PBT_CHECK(t, d.first == r[i], show(v), " factor ", d.first);
            expect(d.second, r, "integral");
        }
        expect(k, v, "operand");
    }

    void printing()
    {
        const auto v = expos(1);
        const auto k = make(v);
        t.nontrivial(n >= 2);
        std::string plain, num, den;
        unsigned i = 0;
        for (const auto &s : ss) {
            const i128 e = v[i++];
            if (e == 0) continue;
            plain += (plain.empty() ? "" : "*") + s + (e == 1 ? "" : "**" + str(e));
            auto &p = e > 0 ? num : den;
            const i128 a = e > 0 ? e : -e;
            p += "{" + s + "}" + (a == 1 ? "" : "^{" + str(a) + "}");
        }
        if (plain.empty()) plain = "1";
        std::string tex = den.empty() ? (num.empty() ? "1" : num) : "\\frac{" + (num.empty() ? "1" : num) + "}{" + den + "}";
        std::ostringstream o1, o2;
        obake::key_stream_insert(o1, k, ss);
        obake::key_tex_stream_insert(o2, k, ss);
        PBT_CHECK(t, o1.str() == plain, o1.str(), " expected ", plain);
        PBT_CHECK(t, o2.str() == tex, o2.str(), " expected ", tex);
    }
};

} // namespace mono

#define MONO_SUBS                                                                                                      \
    PBT_SUB(construct, 60000, 2000000,                                                                                 \
            "monomials built in every way (iterator and size, iterators, ranges, lists, initializer lists, other integral " \
            "types, values out of range), the unit, and compatibility with symbol sets; non-trivial: two symbols or more")  \
    {                                                                                                                  \
        BY_KEY(construct(), 0)                                                                                         \
    }                                                                                                                  \
    PBT_SUB(product, 60000, 2000000,                                                                                   \
            "products of two monomials, also in place, their hashes and comparison; non-trivial: two symbols or more, "\
            "different factors")                                                                                       \
    {                                                                                                                  \
        BY_KEY(product(), 0)                                                                                           \
    }                                                                                                                  \
    PBT_SUB(ranges, 60000, 2000000,                                                                                    \
            "overflow checks of the products of two ranges, with sums of exponents at the limits plus or minus one; "  \
            "non-trivial: two symbols and two monomials each")                                                         \
    {                                                                                                                  \
        BY_KEY(ranges(false), 0)                                                                                       \
    }                                                                                                                  \
    PBT_SUB(ranges_large, 60, 3000,                                                                                    \
            "the same for ranges of about 5000 monomials (checked in parallel); non-trivial: two symbols and two "     \
            "monomials each")                                                                                          \
    {                                                                                                                  \
        BY_KEY(ranges(true), 0)                                                                                        \
    }                                                                                                                  \
    PBT_SUB(degrees, 40000, 2000000, "total and partial degrees; non-trivial: two symbols or more")                    \
    {                                                                                                                  \
        BY_KEY(degrees(), 0)                                                                                           \
    }                                                                                                                  \
    PBT_SUB(powers, 40000, 2000000,                                                                                    \
            "powers with exponents of several types, which just fit or just do not; non-trivial: two symbols, "        \
            "exponent above 1")                                                                                        \
    {                                                                                                                  \
        BY_KEY(powers(), 0)                                                                                            \
    }                                                                                                                  \
    PBT_SUB(eval, 40000, 2000000,                                                                                      \
            "evaluation and substitution with values that record how they are used, and with rationals; non-trivial: " \
            "two symbols or more")                                                                                     \
    {                                                                                                                  \
        BY_KEY(eval(), 0)                                                                                              \
    }                                                                                                                  \
    PBT_SUB(symbols_change, 60000, 2000000,                                                                            \
            "identification of unused symbols, trimming, merging (also when it does not fit) and back; non-trivial: "  \
            "two symbols, two added, one trimmed")                                                                     \
    {                                                                                                                  \
        BY_KEY(symbols_change(), 0)                                                                                    \
    }                                                                                                                  \
    PBT_SUB(calculus, 40000, 2000000, "derivative and integral; non-trivial: two symbols, nonzero exponent")           \
    {                                                                                                                  \
        BY_KEY(calculus(), 1)                                                                                          \
    }                                                                                                                  \
    PBT_SUB(printing, 30000, 1000000, "plain and TeX output; non-trivial: two symbols or more")                        \
    {                                                                                                                  \
        BY_KEY(printing(), 0)                                                                                          \
    }

#endif
