// A naive reference model of polynomials (a map from exponents to coefficients), generators of
// polynomials, and the translation of the library's polynomials into the model.
#ifndef POLY_MODEL_HPP
#define POLY_MODEL_HPP

#include "pbt.hpp"

#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <map>
#include <ostream>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/kpack.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/series.hpp>
#include <obake/stack_trace.hpp>
#include <obake/symbols.hpp>

// Variants from 21 on have many symbols.
#if defined(VARIANT) && VARIANT > 20
#define PM_NS 14
#define PM_INNER many_symbols
#else
#define PM_NS 6
#define PM_INNER few_symbols
#endif

namespace pm
{
inline namespace PM_INNER
{

using integer = mppp::integer<1>;
using rational = mppp::rational<1>;

// The universe of symbols, in alphabetical order.
constexpr unsigned NS = PM_NS;
#if PM_NS == 6
inline const std::array<std::string, NS> names = {"a", "b10", "b9", "x", "y", "z_1"};
#else
inline const std::array<std::string, NS> names
    = {"A", "a", "a1", "b10", "b9", "eccentricity_of_the_inner_body", "m", "p", "r", "x", "xx", "y", "z_1", "zeta"};
#endif

using expo = std::int64_t;
using mono = std::array<expo, NS>;
template <typename C>
using model = std::map<mono, C>;

inline std::string show(const mono &m)
{
    std::string s;
    for (unsigned i = 0; i < NS; ++i) {
        if (m[i] != 0) s += (s.empty() ? "" : "*") + names[i] + "^" + std::to_string(m[i]);
    }
    return s.empty() ? "1" : s;
}
template <typename C>
std::string show(const model<C> &m)
{
    std::ostringstream oss;
    oss.precision(17);
    unsigned n = 0;
    for (const auto &p : m) {
        if (n) oss << " + ";
        if (++n > 40u) {
            oss << "...";
            break;
        }
        oss << "(" << p.second << ")*" << show(p.first);
    }
    return m.empty() ? "0" : oss.str();
}

template <typename C>
bool czero(const C &c)
{
    return c == C(0);
}

// A set of symbols of the universe, as a bit mask.
using mask_t = unsigned;
inline obake::symbol_set to_ss(mask_t m)
{
    std::vector<std::string> v;
    for (unsigned i = 0; i < NS; ++i) {
        if (m & (1u << i)) v.push_back(names[i]);
    }
    return obake::symbol_set(v.begin(), v.end());
}
inline mask_t gen_mask(pbt::T &t)
{
    return static_cast<mask_t>(t.below(1u << NS));
}
inline unsigned mask_size(mask_t m)
{
    return static_cast<unsigned>(__builtin_popcount(m));
}
inline unsigned sym_idx(const std::string &s)
{
    for (unsigned i = 0; i < NS; ++i) {
        if (names[i] == s) return i;
    }
    throw pbt::failure{"unknown symbol '" + s + "' in a result"};
}
inline mask_t ss_mask(const obake::symbol_set &ss)
{
    mask_t m = 0;
    for (const auto &s : ss) m |= 1u << sym_idx(s);
    return m;
}

template <typename K>
struct key_traits;
template <typename I>
struct key_traits<obake::packed_monomial<I>> {
    using int_t = I;
    static constexpr bool dynamic = false;
    static std::vector<I> unpack(const obake::packed_monomial<I> &k, unsigned n)
    {
        std::vector<I> v(n);
        if (n == 0u) {
            if (k.get_value() != 0) throw pbt::failure{"nonzero packed monomial over no symbols"};
            return v;
        }
        obake::kunpacker<I> ku(k.get_value(), n);
        for (auto &x : v) ku >> x;
        return v;
    }
    // Exponent limits over n symbols.
    static std::pair<I, I> lims(unsigned n)
    {
        const auto l = obake::detail::kpack_get_lims<I>(n ? n : 1u);
        return {l.first, l.second};
    }
};
template <typename I, unsigned P>
struct key_traits<obake::d_packed_monomial<I, P>> {
    using int_t = I;
    static constexpr bool dynamic = true;
    static std::vector<I> unpack(const obake::d_packed_monomial<I, P> &k, unsigned n)
    {
        std::vector<I> v(n);
        const auto &c = k._container();
        if (c.size() != (n + P - 1u) / P) throw pbt::failure{"wrong container size in a d_packed_monomial"};
        unsigned i = 0;
        for (const auto &w : c) {
            obake::kunpacker<I> ku(w, P);
            for (unsigned j = 0; j < P; ++j) {
                I x;
                ku >> x;
                if (i < n) v[i++] = x;
                else if (x != 0) throw pbt::failure{"nonzero padding exponent in a d_packed_monomial"};
            }
        }
        return v;
    }
    static std::pair<I, I> lims(unsigned)
    {
        const auto l = obake::detail::kpack_get_lims<I>(P);
        return {l.first, l.second};
    }
};

template <typename K>
K make_key(const mono &m, mask_t mask)
{
    using I = typename key_traits<K>::int_t;
    std::vector<I> v;
    for (unsigned i = 0; i < NS; ++i) {
        if (mask & (1u << i)) v.push_back(static_cast<I>(m[i]));
    }
    return K(v.begin(), v.end());
}

// Structural invariants of any polynomial, and its translation.
template <typename P>
auto to_model(const P &p) -> model<obake::series_cf_t<P>>
{
    using K = obake::series_key_t<P>;
    using C = obake::series_cf_t<P>;
    model<C> r;
    const auto &ss = p.get_symbol_set();
    std::vector<unsigned> idx;
    for (const auto &s : ss) idx.push_back(sym_idx(s));
    std::size_t n = 0;
    for (const auto &term : p) {
        ++n;
        if (!obake::key_is_compatible(term.first, ss)) throw pbt::failure{"a stored key is incompatible with the symbol set"};
        const auto v = key_traits<K>::unpack(term.first, static_cast<unsigned>(ss.size()));
        mono m{};
        for (std::size_t i = 0; i < v.size(); ++i) m[idx[i]] = static_cast<expo>(v[i]);
        if (czero(term.second)) throw pbt::failure{"a term with a zero coefficient is stored: " + show(m)};
        if (!r.emplace(m, term.second).second) throw pbt::failure{"the same monomial is stored twice: " + show(m)};
        if (p.find(term.first) == p.end()) throw pbt::failure{"a stored term is not found by its key: " + show(m)};
    }
    if (n != p.size() || (n == 0u) != p.empty()) throw pbt::failure{"size() disagrees with the number of terms"};
    return r;
}

// The result must be exactly the model.
template <typename P, typename M>
void same(pbt::T &t, const P &p, const M &m, const std::string &what)
{
    const auto r = to_model(p);
    if (!(r == m)) t.fail(what + ": got " + show(r) + "  expected " + show(m));
}

// ---- reference operations ----
template <typename C>
void add_to(model<C> &m, const mono &k, const C &c)
{
    auto [it, ins] = m.emplace(k, c);
    if (!ins) it->second = it->second + c;
    if (czero(it->second)) m.erase(it);
}
template <typename R, typename A>
model<R> convert(const model<A> &a)
{
    model<R> r;
    for (const auto &p : a) add_to(r, p.first, static_cast<R>(p.second));
    return r;
}
template <typename C>
model<C> add(const model<C> &a, const model<C> &b)
{
    model<C> r(a);
    for (const auto &p : b) add_to(r, p.first, p.second);
    return r;
}
template <typename C>
model<C> neg(const model<C> &a)
{
    model<C> r(a);
    for (auto &p : r) p.second = -p.second;
    return r;
}
template <typename C>
model<C> sub(const model<C> &a, const model<C> &b)
{
    return add(a, neg(b));
}
inline mono mono_mul(const mono &a, const mono &b)
{
    mono r;
    // Wraps around where the checks compare ranges on their own.
    for (unsigned i = 0; i < NS; ++i)
        r[i] = static_cast<expo>(static_cast<std::uint64_t>(a[i]) + static_cast<std::uint64_t>(b[i]));
    return r;
}
template <typename C>
model<C> mul(const model<C> &a, const model<C> &b)
{
    model<C> r;
    for (const auto &p : a) {
        for (const auto &q : b) {
            auto [it, ins] = r.emplace(mono_mul(p.first, q.first), p.second * q.second);
            if (!ins) it->second = it->second + p.second * q.second;
        }
    }
    for (auto it = r.begin(); it != r.end();) {
        if (czero(it->second)) it = r.erase(it);
        else ++it;
    }
    return r;
}
template <typename C>
model<C> constant(const C &c)
{
    model<C> r;
    if (!czero(c)) r.emplace(mono{}, c);
    return r;
}
template <typename C>
model<C> pow(const model<C> &a, unsigned n)
{
    auto r = constant(C(1));
    for (unsigned i = 0; i < n; ++i) r = mul(r, a);
    return r;
}
inline expo tdeg(const mono &m, mask_t mask = ~0u)
{
    expo r = 0;
    for (unsigned i = 0; i < NS; ++i) {
        if (mask & (1u << i)) r += m[i];
    }
    return r;
}

// ---- generators ----
template <typename C>
C gen_cf(pbt::T &t, bool nonzero = false)
{
    while (true) {
        C r;
        if constexpr (std::is_same_v<C, rational>) {
            const auto n = t.below(6) ? static_cast<long long>(t.sym(20)) : t.edgy<long long>();
            const auto d = 1u + t.below(t.below(4) ? 6u : 1000u);
            r = rational(n, d);
        } else if constexpr (std::is_same_v<C, integer>) {
            r = integer(t.below(6) ? static_cast<long long>(t.sym(20)) : t.edgy<long long>());
        } else if constexpr (std::is_floating_point_v<C>) {
            // Small dyadic values: sums and products are exact.
            r = static_cast<C>(t.sym(64)) / C(4);
        } else {
            r = static_cast<C>(t.sym(9));
        }
        if (nonzero && czero(r)) r = C(1);
        return r;
    }
}

// Exponent bounds for a case.
struct erange {
    expo lo, hi;
};

template <typename C>
model<C> gen_model(pbt::T &t, mask_t mask, std::size_t max_terms, erange e)
{
    model<C> r;
    const auto n = t.below(max_terms + 1u);
    const bool sparse = t.below(2) == 0u;
    for (std::uint64_t i = 0; i < n; ++i) {
        mono m{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) {
                if (sparse && t.below(2) == 0u) continue;
                // Simplest is zero.
                const auto span = static_cast<std::uint64_t>(e.hi - e.lo) + 1u;
                auto v = e.lo < 0 ? static_cast<expo>(t.below(span)) : e.lo + static_cast<expo>(t.below(span));
                if (e.lo < 0) {
                    // 0, 1, ..., hi, -1, ..., lo
                    if (v > e.hi) v = e.hi - v;
                }
                m[j] = v;
            }
        }
        add_to(r, m, gen_cf<C>(t));
    }
    return r;
}

template <typename P>
P build(const model<obake::series_cf_t<P>> &m, mask_t mask, unsigned log2_segs = 0)
{
    P p;
    p.set_symbol_set(to_ss(mask));
    if (log2_segs) p.set_n_segments(log2_segs);
    for (const auto &q : m) p.add_term(make_key<obake::series_key_t<P>>(q.first, mask), q.second);
    return p;
}

template <typename P>
struct pair_t {
    P p;
    model<obake::series_cf_t<P>> m;
    mask_t mask;
};

template <typename P>
pair_t<P> gen_poly(pbt::T &t, mask_t mask, std::size_t max_terms, erange e)
{
    auto m = gen_model<obake::series_cf_t<P>>(t, mask, max_terms, e);
    const auto segs = static_cast<unsigned>(t.below(4));
    return pair_t<P>{build<P>(m, mask, segs), m, mask};
}

struct quiet {
    quiet()
    {
        static const pbt::reg_init r([] { obake::set_stack_trace_enabled(false); });
    }
};
inline const quiet quiet_instance;

} // namespace PM_INNER
} // namespace pm

#endif
