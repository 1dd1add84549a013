// The reference model of polynomials whose coefficients are polynomials: a map from pairs of monomials
// (outer, inner) to numbers. The two levels may use the same symbols and are kept apart.
#ifndef NEST_MODEL_HPP
#define NEST_MODEL_HPP

#include "poly_model.hpp"

namespace pm
{
inline namespace PM_INNER
{

using mono2 = std::array<expo, 2 * NS>;
template <typename C>
using nmodel = std::map<mono2, C>;

inline mono outer(const mono2 &m)
{
    mono r;
    for (unsigned i = 0; i < NS; ++i) r[i] = m[i];
    return r;
}
inline mono inner(const mono2 &m)
{
    mono r;
    for (unsigned i = 0; i < NS; ++i) r[i] = m[NS + i];
    return r;
}
inline mono2 both(const mono &o, const mono &in)
{
    mono2 r;
    for (unsigned i = 0; i < NS; ++i) {
        r[i] = o[i];
        r[NS + i] = in[i];
    }
    return r;
}
template <typename C>
std::string show(const nmodel<C> &m)
{
    std::ostringstream oss;
    oss.precision(17);
    unsigned n = 0;
    for (const auto &p : m) {
        if (n) oss << " + ";
        if (++n > 40u) {
            oss << "...";
            break;
        }
        oss << "(" << p.second << ")*[" << show(inner(p.first)) << "]*" << show(outer(p.first));
    }
    return m.empty() ? "0" : oss.str();
}

template <typename C>
void add_to(nmodel<C> &m, const mono2 &k, const C &c)
{
    auto [it, ins] = m.emplace(k, c);
    if (!ins) it->second = it->second + c;
    if (czero(it->second)) m.erase(it);
}
template <typename C>
nmodel<C> add(const nmodel<C> &a, const nmodel<C> &b)
{
    nmodel<C> r(a);
    for (const auto &p : b) add_to(r, p.first, p.second);
    return r;
}
template <typename C>
nmodel<C> neg(nmodel<C> r)
{
    for (auto &p : r) p.second = -p.second;
    return r;
}
template <typename C>
nmodel<C> sub(const nmodel<C> &a, const nmodel<C> &b)
{
    return add(a, neg(b));
}
template <typename C>
nmodel<C> mul(const nmodel<C> &a, const nmodel<C> &b)
{
    nmodel<C> r;
    for (const auto &p : a) {
        for (const auto &q : b) {
            mono2 k;
            for (unsigned i = 0; i < 2 * NS; ++i) k[i] = p.first[i] + q.first[i];
            add_to(r, k, C(p.second * q.second));
        }
    }
    return r;
}
// A polynomial of the coefficients' kind, as a constant.
template <typename C>
nmodel<C> lift(const model<C> &m)
{
    nmodel<C> r;
    for (const auto &p : m) r.emplace(both(mono{}, p.first), p.second);
    return r;
}
// As one polynomial in the symbols of both levels.
template <typename C>
model<C> flat(const nmodel<C> &m)
{
    model<C> r;
    for (const auto &p : m) add_to(r, mono_mul(outer(p.first), inner(p.first)), p.second);
    return r;
}

// Structural invariants of both levels, and the translation.
template <typename Q>
auto to_nmodel(const Q &q) -> nmodel<obake::series_cf_t<obake::series_cf_t<Q>>>
{
    using K = obake::series_key_t<Q>;
    nmodel<obake::series_cf_t<obake::series_cf_t<Q>>> r;
    const auto &ss = q.get_symbol_set();
    std::set<mono> seen;
    std::size_t n = 0;
    for (const auto &term : q) {
        ++n;
        if (!obake::key_is_compatible(term.first, ss)) throw pbt::failure{"a stored key is incompatible with the symbol set"};
        const auto v = key_traits<K>::unpack(term.first, static_cast<unsigned>(ss.size()));
        mono o{};
        unsigned i = 0;
        for (const auto &s : ss) o[sym_idx(s)] = static_cast<expo>(v[i++]);
        if (!seen.insert(o).second) throw pbt::failure{"the same monomial is stored twice: " + show(o)};
        if (term.second.empty()) throw pbt::failure{"a zero coefficient is stored: " + show(o)};
        if (q.find(term.first) == q.end()) throw pbt::failure{"a stored term is not found by its key: " + show(o)};
        for (const auto &p : to_model(term.second)) r.emplace(both(o, p.first), p.second);
    }
    if (n != q.size() || (n == 0u) != q.empty()) throw pbt::failure{"size() disagrees with the number of terms"};
    return r;
}
template <typename Q, typename C>
void nsame(pbt::T &t, const Q &q, const nmodel<C> &m, const std::string &what)
{
    const auto r = to_nmodel(q);
    if (!(r == m)) t.fail(what + ": got " + show(r) + "  expected " + show(m));
}

template <typename Q>
struct npair_t {
    Q q;
    nmodel<obake::series_cf_t<obake::series_cf_t<Q>>> m;
    mask_t mo = 0;
    // The union of the symbols of the coefficients.
    mask_t mi = 0;
};

// Coefficients over one symbol set, or each over its own.
template <typename Q>
npair_t<Q> gen_nested(pbt::T &t, mask_t mo, mask_t mi, std::size_t nout, std::size_t nin, erange e)
{
    using K = obake::series_key_t<Q>;
    using P = obake::series_cf_t<Q>;
    using C = obake::series_cf_t<P>;
    npair_t<Q> r;
    r.mo = mo;
    r.q.set_symbol_set(to_ss(mo));
    if (const auto segs = static_cast<unsigned>(t.below(3))) r.q.set_n_segments(segs);
    const bool own = t.below(2);
    for (const auto &p : gen_model<int>(t, mo, nout, e)) {
        const auto mask = own ? (mi & gen_mask(t)) : mi;
        const auto c = gen_poly<P>(t, mask, nin, e);
        if (!c.m.empty()) r.mi |= mask;
        r.q.add_term(make_key<K>(p.first, mo), c.p);
        for (const auto &x : c.m) r.m.emplace(both(p.first, x.first), static_cast<C>(x.second));
    }
    return r;
}

} // namespace PM_INNER
} // namespace pm

#endif
