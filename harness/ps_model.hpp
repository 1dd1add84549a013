// Power series: the polynomial model with a truncation, and generators.
#ifndef PS_MODEL_HPP
#define PS_MODEL_HPP

#include "poly_model.hpp"

#include <variant>

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/power_series/power_series.hpp>

namespace ps
{
inline namespace PM_INNER
{

using namespace pm;

// A truncation: none, total (d) or partial (d, syms). The last bit of syms is a symbol that no series has.
constexpr mask_t foreign = 1u << NS;
struct trunc_t {
    int kind = 0;
    expo d = 0;
    mask_t syms = 0;
    bool operator==(const trunc_t &o) const
    {
        return kind == o.kind && (kind == 0 || d == o.d) && (kind != 2 || syms == o.syms);
    }
};

inline obake::symbol_set tr_ss(mask_t m)
{
    auto r = to_ss(m & ~foreign);
    if (m & foreign) r.insert("q");
    return r;
}

inline std::string show(const trunc_t &t)
{
    std::string s = t.kind == 0 ? "none" : std::to_string(t.d);
    if (t.kind == 2) s += " in " + obake::detail::to_string(tr_ss(t.syms));
    return s;
}

inline trunc_t gen_trunc(pbt::T &t, bool sg, expo top = 8)
{
    trunc_t r;
    r.kind = static_cast<int>(t.below(3));
    if (r.kind) {
        r.d = static_cast<expo>(t.below(static_cast<std::uint64_t>(top) + 1u));
        if (sg && t.below(6) == 0u) r.d = -1 - static_cast<expo>(t.below(3));
    }
    if (r.kind == 2) r.syms = static_cast<mask_t>(t.below(1u << NS)) | (t.below(5) ? 0u : foreign);
    return r;
}

inline bool keeps(const trunc_t &tr, const mono &m)
{
    if (tr.kind == 0) return true;
    return tdeg(m, tr.kind == 1 ? ~0u : tr.syms) <= tr.d;
}

template <typename C>
model<C> cut(const model<C> &m, const trunc_t &tr)
{
    model<C> r;
    for (const auto &q : m) {
        if (keeps(tr, q.first)) r.insert(q);
    }
    return r;
}

// The common truncation of two operands, or nothing if they are at odds.
inline bool join(const trunc_t &a, const trunc_t &b, trunc_t &r)
{
    if (a.kind == 0) {
        r = b;
        return true;
    }
    r = a;
    return b.kind == 0 || a == b;
}

template <typename P>
void set_tr(P &p, const trunc_t &tr)
{
    if (tr.kind == 0) obake::unset_truncation(p);
    else if (tr.kind == 1) obake::set_truncation(p, tr.d);
    else obake::set_truncation(p, tr.d, tr_ss(tr.syms));
}

template <typename P>
trunc_t get_tr(const P &p)
{
    const auto &v = obake::get_truncation(p);
    trunc_t r;
    r.kind = static_cast<int>(v.index());
    if (r.kind == 1) r.d = static_cast<expo>(std::get<1>(v));
    if (r.kind == 2) {
        r.d = static_cast<expo>(std::get<2>(v).first);
        for (const auto &s : std::get<2>(v).second) r.syms |= s == "q" ? foreign : 1u << sym_idx(s);
    }
    return r;
}

template <typename P>
struct ser {
    P p;
    model<obake::series_cf_t<P>> m;
    mask_t mask;
    trunc_t tr;
};

template <typename P>
ser<P> gen_ser(pbt::T &t, std::size_t nmax, erange e, const trunc_t &tr)
{
    ser<P> r;
    r.mask = gen_mask(t);
    r.tr = tr;
    auto m = gen_model<obake::series_cf_t<P>>(t, r.mask, nmax, e);
    r.p = build<P>(m, r.mask, static_cast<unsigned>(t.below(4)));
    set_tr(r.p, tr);
    r.m = cut(m, tr);
    return r;
}

template <typename P>
void same(pbt::T &t, const P &p, const model<obake::series_cf_t<P>> &m, const trunc_t &tr, const std::string &what)
{
    pm::same(t, p, m, what);
    const auto g = get_tr(p);
    if (!(g == tr)) t.fail(what + ": truncation " + show(g) + ", expected " + show(tr));
}

} // namespace PM_INNER
} // namespace ps

#endif
