// A02: the multi-threaded (segmented) multiplication agrees with the definition of the product.
// A03: truncated multiplication is the product without the terms above the limit.
#include "poly_model.hpp"

#include <algorithm>

using namespace pm;

#if !defined(A02_VARIANT)
#define A02_VARIANT VARIANT
#endif
#if A02_VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
#elif A02_VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 4>, integer>;
#elif A02_VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint64_t>, double>;
#elif A02_VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint32_t, 3>, rational>;
#elif A02_VARIANT == 21
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 5>, rational>;
#elif A02_VARIANT == 22
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;

template <typename U>
static U big_cf(pbt::T &t, unsigned bits)
{
    U c = gen_cf<U>(t, true);
    if constexpr (std::is_same_v<U, integer>) {
        if (bits) c = (c << bits) + gen_cf<U>(t);
    } else if constexpr (std::is_same_v<U, rational>) {
        if (bits) c = c + rational((integer(1) << bits) + static_cast<long>(t.below(1000)));
    }
    if (czero(c)) c = U(1);
    return c;
}

// n terms over the symbols of the mask, exponents in the range. Uniform: "dense" means exponents from a small box.
template <typename U>
static model<U> gen_terms(pbt::T &t, mask_t mask, std::size_t n, erange e, unsigned bits, expo stride = 1)
{
    model<U> r;
    const bool few = n < 50u && t.chance(1, 2);
    std::vector<U> pool;
    for (unsigned i = 0; i < 6u; ++i) pool.push_back(big_cf<U>(t, bits));
    for (std::size_t i = 0; i < n; ++i) {
        mono m{};
        // One choice per term keeps the choice sequence short.
        auto z = t.raw64();
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) {
                const auto span = static_cast<std::uint64_t>(e.hi - e.lo + 1);
                m[j] = e.lo + static_cast<expo>(z % span);
                z /= span;
                if (few && j % 2u) m[j] = 0;
                m[j] *= stride;
            }
        }
        r[m] = pool[i % pool.size()];
    }
    return r;
}

template <typename Q>
static P build_big(const model<C> &m, mask_t mask, Q segs)
{
    return build<P>(m, mask, static_cast<unsigned>(segs));
}

namespace
{
struct operands {
    pair_t<P> a, b;
    bool mt;
};
} // namespace

static operands gen_operands(pbt::T &t, bool large)
{
    mask_t ma = gen_mask(t), mb = t.chance(2, 3) ? ma : gen_mask(t);
    if (!ma) ma = 9;
    if (!mb) mb = 24;
    const bool sg = std::is_signed_v<I>;
    if (large) {
        // Room for enough distinct monomials.
        if (mask_size(ma) < 2u) ma |= 5u;
        if (mask_size(mb) < 2u) mb |= 10u;
    }
    const auto lims = key_traits<K>::lims(std::max(mask_size(ma | mb), 1u));
    const expo top = static_cast<expo>(std::min<std::uint64_t>(static_cast<std::uint64_t>(lims.second), 1ull << 20)) / 2;
    erange e{0, std::min<expo>(top, static_cast<expo>(1 + t.below(t.below(2) ? 4u : 40u)))};
    if (sg && t.below(2)) e.lo = -std::min<expo>(e.hi, top - 1 > 0 ? top - 1 : 0);
    unsigned bits = large ? static_cast<unsigned>(t.below(3) ? 200u + t.below(4000u) : 0u) : static_cast<unsigned>(t.below(200));
    if (large) {
        e.hi = std::min<expo>(top, static_cast<expo>(12 + t.below(60)));
    }
    std::size_t na, nb;
    unsigned kind = 0;
#if defined(NO_SUBS)
    // Under the thread sanitizer: as few terms as still take the parallel path.
    large = large && !t.chance(1, 4);
    if (large && bits && !std::is_same_v<C, double> && t.below(3) == 0u) {
        // Huge coefficients: many segments, few terms.
        if (t.below(2)) {
            kind = 1;
            bits = static_cast<unsigned>(60000u + t.below(200000u));
            na = 5u + t.below(4);
            nb = na + t.below(4);
        } else {
            bits = static_cast<unsigned>(20000u + t.below(100000u));
            na = 1u + t.below(6);
            nb = 10u + t.below(60);
        }
    } else if (large && bits >= 400u && !std::is_same_v<C, double>) {
        na = 1u + t.below(10);
        nb = 30000u * 8u / bits + 20u;
    } else if (large) {
        na = 1u + t.below(8);
        nb = (std::is_same_v<C, double> ? 2000u : 900u) + t.below(200);
    } else {
        na = t.below(t.scaled(30) + 1u);
        nb = t.below(t.scaled(30) + 1u);
    }
#endif
    expo stride = 1;
    // Structure of large operands: terms that cancel, huge coefficients (both operands fill few of many segments), keys
    // that hash to few of the segments.
#if !defined(NO_SUBS)
    if (!large) {
        na = t.below(t.scaled(30) + 1u);
        nb = t.below(t.scaled(30) + 1u);
    } else {
        kind = static_cast<unsigned>(t.below(6));
        if (std::is_same_v<C, double> && (kind == 1u || kind == 2u)) kind = 3;
        if (t.below(3) == 0u) {
            const auto s = expo(2) << t.below(6);
            if (std::max(e.hi, -e.lo) * s < top) stride = s;
        }
        if (kind == 1u) {
            bits = static_cast<unsigned>(60000u + t.below(240000u));
            na = 5u + t.below(7);
            nb = na + t.below(5);
        } else if (kind == 2u) {
            na = nb = 10u + t.below(60);
            bits = static_cast<unsigned>(260000u / na);
        } else if (bits && !std::is_same_v<C, double>) {
            na = 1u + t.below(40);
            nb = 60u + t.below(400);
        } else {
            na = 1u + t.below(60);
            nb = 1500u + t.below(2000);
        }
    }
#endif
    if (kind == 2u || kind == 3u || kind == 1u) mb = ma;
    auto a = gen_terms<C>(t, ma, na, e, bits, stride);
    auto b = gen_terms<C>(t, mb, nb, e, bits, stride);
    if (kind == 2u || (kind == 1u && t.below(2))) {
        // (u + v) * (u - v), times a constant.
        b.clear();
        const C two(2);
        auto z = t.raw64();
        for (const auto &q : a) {
            b.emplace(q.first, z & 1u ? q.second * two : -(q.second * two));
            z = (z >> 1u) | (z << 63u);
        }
    } else if (const expo room = std::min<expo>(top / 2 - stride * std::max(e.hi, -e.lo), 400); kind == 3u && room > 1) {
        // (1 - m) * (g + g*m + g*m**2 + ...): all but the ends of the chains cancel.
        mono step{};
        for (unsigned j = 0; j < NS; ++j) {
            if (ma & (1u << j)) step[j] = sg ? static_cast<expo>(t.sym(1)) : static_cast<expo>(t.below(2));
        }
        const auto one = gen_terms<C>(t, ma, 1, e, 0, stride);
        a.clear();
        a.emplace(one.begin()->first, one.begin()->second);
        auto k = one.begin()->first;
        for (unsigned j = 0; j < NS; ++j) k[j] += step[j];
        if (step != mono{}) a.emplace(k, -one.begin()->second);
        const auto len = static_cast<expo>(t.below(static_cast<std::uint64_t>(room))) + 1;
        const auto heads = gen_terms<C>(t, ma, static_cast<std::size_t>(static_cast<expo>(nb) / len + 1), e, bits, stride);
        b.clear();
        for (const auto &q : heads) {
            auto m = q.first;
            for (expo i = 0; i < len; ++i) {
                b[m] = q.second;
                for (unsigned j = 0; j < NS; ++j) m[j] += step[j];
            }
        }
    }
    operands o{{build<P>(a, ma, static_cast<unsigned>(t.below(4))), a, ma},
               {build<P>(b, mb, static_cast<unsigned>(t.below(4))), b, mb},
               false};
    if (t.below(2)) std::swap(o.a, o.b);
    o.mt = std::max(obake::byte_size(o.a.p), obake::byte_size(o.b.p)) >= 30000u;
    return o;
}

static std::string brief(const operands &o)
{
    return pbt::cat("a: ", o.a.m.size(), " terms over ", mask_size(o.a.mask), " symbols, b: ", o.b.m.size(), " terms over ",
                    mask_size(o.b.mask), o.mt ? " (large operands)" : "",
                    o.a.m.size() + o.b.m.size() < 30u ? pbt::cat(" a=", show(o.a.m), " b=", show(o.b.m)) : std::string());
}

static void short_same(pbt::T &t, const P &r, const model<C> &exp, const std::string &what)
{
    const auto g = to_model(r);
    if (g == exp) return;
    std::string d;
    unsigned n = 0;
    for (const auto &p : exp) {
        auto it = g.find(p.first);
        if (it == g.end()) {
            if (++n < 6u) d += " missing " + show(p.first);
        } else if (!(it->second == p.second)) {
            if (++n < 6u) d += " wrong coefficient of " + show(p.first);
        }
    }
    for (const auto &p : g) {
        if (!exp.count(p.first) && ++n < 6u) d += " extra " + show(p.first);
    }
    t.fail(pbt::cat(what, ": ", n, " terms differ (", g.size(), " got, ", exp.size(), " expected):", d));
}

#if !defined(TRUNC)
static void full(pbt::T &t, bool large)
{
    const auto o = gen_operands(t, large);
    PBT_LOG(t, brief(o));
    const auto exp = mul(o.a.m, o.b.m);
    const P r = o.a.p * o.b.p;
    short_same(t, r, exp, "product");
    if (o.mt) t.label(pbt::cat("large operands, log2 segments ", r.get_s_size()));
    t.nontrivial(large ? o.mt : exp.size() > 1u);
    // The other order.
    if (t.below(2)) {
        const P r2 = o.b.p * o.a.p;
        PBT_CHECK(t, r2 == r, "not commutative");
    }
}

#else
static void trunc(pbt::T &t, bool large)
{
    const auto o = gen_operands(t, large);
    PBT_LOG(t, brief(o));
    auto exp = mul(o.a.m, o.b.m);
    const bool partial = t.below(2);
    mask_t pmask = partial ? gen_mask(t) : ~0u;
    // A limit inside (or just around) the range of degrees of the product.
    expo lo = 0, hi = 0;
    bool first = true;
    for (const auto &p : exp) {
        const auto d = tdeg(p.first, pmask);
        if (first || d < lo) lo = d;
        if (first || d > hi) hi = d;
        first = false;
    }
    const expo limit = lo - 1 + static_cast<expo>(t.below(static_cast<std::uint64_t>(hi - lo) + 3u));
    const auto full_size = exp.size();
    for (auto it = exp.begin(); it != exp.end();) {
        if (tdeg(it->first, pmask) > limit) it = exp.erase(it);
        else ++it;
    }
    PBT_LOG(t, "limit ", limit, partial ? " partial in " : " total", partial ? pbt::cat(to_ss(pmask).size()) : "");
    P r;
    // With unsigned exponents, a limit of a signed C++ type is compared as C++ does: only use those it represents.
    const bool cpp_ok = std::is_signed_v<I> || limit >= 0;
    // The limit may be given as any type the degrees compare to.
    if (partial) {
        const auto ss = to_ss(pmask);
        if (cpp_ok && t.below(2)) r = obake::polynomials::truncated_mul(o.a.p, o.b.p, limit, ss);
        else r = obake::polynomials::truncated_mul(o.a.p, o.b.p, integer(limit), ss);
    } else {
        if (cpp_ok && t.below(2)) r = obake::polynomials::truncated_mul(o.a.p, o.b.p, limit);
        else r = obake::polynomials::truncated_mul(o.a.p, o.b.p, integer(limit));
    }
    short_same(t, r, exp, "truncated product");
    t.nontrivial(exp.size() != full_size && !exp.empty() && (!large || o.mt));
    if (exp.empty()) t.label("everything truncated");
    else if (exp.size() == full_size) t.label("nothing truncated");
    else t.label(partial ? "partial" : "total");
    if (o.mt) t.label(pbt::cat("large operands, log2 segments ", r.get_s_size()));
}

#endif

#if defined(NO_SUBS)
#elif defined(TRUNC)
PBT_SUB(trunc_small, 12000, 400000,
        "total- and partial-degree truncated products of two small polynomials against the filtered model product, the "
        "limit drawn around the degrees present; non-trivial: some but not all terms are removed")
{
    trunc(t, false);
}
PBT_SUB(trunc_large, 300, 6000,
        "as above, with one operand above the multi-threading threshold (many terms or coefficients of thousands of "
        "bits); non-trivial: above the threshold and some but not all terms removed")
{
    trunc(t, true);
}
#else
PBT_SUB(product_small, 20000, 400000,
        "products of two small polynomials against the model product; non-trivial: at least two terms result")
{
    full(t, false);
}
PBT_SUB(product_large, 400, 20000,
        "products with one operand above the multi-threading threshold (many terms or coefficients of thousands of bits, "
        "so 1 to 64 table segments) against the model product; non-trivial: the operand really is above the threshold")
{
    full(t, true);
}
#endif
