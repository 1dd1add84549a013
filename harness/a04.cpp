// A04: exponents never wrap: an operation whose exact result needs an exponent out of the representable range
// throws overflow_error and leaves its operands alone; every other operation gives the exact result.
#include "poly_model.hpp"

#include <algorithm>

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int32_t>, integer>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint64_t>, double>;
#elif VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint32_t, 2>, rational>;
#elif VARIANT == 5
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 21
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 22
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 5>, integer>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
using wide = __int128_t;

static std::pair<wide, wide> lims_of(mask_t m)
{
    const auto l = key_traits<K>::lims(std::max(mask_size(m), 1u));
    return {static_cast<wide>(l.first), static_cast<wide>(l.second)};
}

// Polynomials with exponents anywhere in the range representable over their own symbols. One term type only:
// exponents fit an int64 (unsigned 64-bit exponents over one symbol are kept below 2**62).
static pair_t<P> gen_edge(pbt::T &t, mask_t mask, std::size_t nmax)
{
    const auto [lo, hi] = lims_of(mask);
    const wide cap = wide(1) << 62;
    const wide l = std::max(lo, -cap), h = std::min(hi, cap);
    model<C> m;
    const auto n = 1u + t.below(nmax);
    for (std::uint64_t i = 0; i < n; ++i) {
        mono e{};
        for (unsigned j = 0; j < NS; ++j) {
            if (!(mask & (1u << j))) continue;
            wide v = 0;
            switch (t.below(8)) {
                case 0:
                case 1:
                case 2:
                    v = static_cast<wide>(t.below(3));
                    break;
                case 3:
                    v = h / 2 + static_cast<wide>(t.sym(2));
                    break;
                case 4:
                    v = l / 2 + static_cast<wide>(t.sym(2));
                    break;
                case 5:
                    v = h - static_cast<wide>(t.below(3));
                    break;
                case 6:
                    v = l + static_cast<wide>(t.below(3));
                    break;
                default:
                    v = l + static_cast<wide>(t.raw64()) % (h - l + 1);
            }
            e[j] = static_cast<expo>(std::clamp(v, l, h));
        }
        add_to(m, e, gen_cf<C>(t, true));
    }
    return {build<P>(m, mask, static_cast<unsigned>(t.below(3))), m, mask};
}

static bool fits(const model<C> &m, mask_t mask)
{
    const auto [lo, hi] = lims_of(mask);
    for (const auto &p : m) {
        for (unsigned j = 0; j < NS; ++j) {
            if ((mask & (1u << j)) && (wide(p.first[j]) < lo || wide(p.first[j]) > hi)) return false;
        }
    }
    return true;
}

// Some product of a term of a and a term of b is out of range (components are independent).
static bool product_fits(const model<C> &a, const model<C> &b, mask_t mask)
{
    const auto [lo, hi] = lims_of(mask);
    for (const auto &p : a) {
        for (const auto &q : b) {
            for (unsigned j = 0; j < NS; ++j) {
                const wide s = wide(p.first[j]) + wide(q.first[j]);
                if ((mask & (1u << j)) && (s < lo || s > hi)) return false;
            }
        }
    }
    return true;
}

template <typename F>
static void expect(pbt::T &t, bool ok, const model<C> &exp, F f, const char *what)
{
    t.label(pbt::cat(what, ok ? " in range" : " overflows"));
    if (ok) {
        try {
            const P r = f();
            same(t, r, exp, what);
        } catch (const std::overflow_error &e) {
            t.fail(pbt::cat(what, ": overflow_error although every exponent is representable: ", e.what()));
        }
    } else {
        t.nontrivial();
        try {
            const P r = f();
            t.fail(pbt::cat(what, ": no overflow_error, result ", show(to_model(r))));
        } catch (const std::overflow_error &) {
        }
    }
}

PBT_SUB(arith, 60000, 2000000,
        "products, sums and differences over merged symbol sets, powers of single terms, derivatives and integrals of "
        "polynomials with exponents at and around the edges of the representable range, against exact (128-bit) exponent "
        "arithmetic; non-trivial: the exact result is not representable")
{
    const auto ma = gen_mask(t), mb = t.below(2) ? ma : gen_mask(t);
    auto a = gen_edge(t, ma, 4), b = gen_edge(t, mb, 4);
    const auto mm = ma | mb;
    PBT_LOG(t, "a=", show(a.m), " over ", ma, "  b=", show(b.m), " over ", mb);
    const bool merge_ok = fits(a.m, mm) && fits(b.m, mm);
    switch (t.below(6)) {
        case 0:
        case 1:
        case 2: {
            const bool ok = merge_ok && product_fits(a.m, b.m, mm);
            expect(t, ok, ok ? mul(a.m, b.m) : model<C>{}, [&] { return P(a.p * b.p); }, "product");
            break;
        }
        case 3: {
            const bool moved = t.below(2);
            expect(t, merge_ok, add(a.m, b.m), [&] { return moved ? P(P(a.p) + P(b.p)) : P(a.p + b.p); }, "sum");
            expect(
                t, merge_ok, sub(a.m, b.m),
                [&] {
                    P r(a.p);
                    r -= b.p;
                    return r;
                },
                "difference");
            break;
        }
        case 4: { // power of a single term
            while (a.m.size() > 1u) a.m.erase(a.m.begin());
            if (a.m.empty()) a.m.emplace(mono{}, C(1));
            a.p = build<P>(a.m, a.mask);
            const auto n = static_cast<unsigned>(t.below(t.below(3) ? 5u : 200u));
            const auto [lo, hi] = lims_of(a.mask);
            bool ok = true;
            model<C> exp;
            mono e{};
            for (unsigned j = 0; j < NS; ++j) {
                const wide s = wide(a.m.begin()->first[j]) * wide(n);
                if ((a.mask & (1u << j)) && (s < lo || s > hi)) ok = false;
                if (ok) e[j] = static_cast<expo>(s);
            }
            if constexpr (std::is_same_v<C, double>) {
                a.m.begin()->second = 1;
                a.p = build<P>(a.m, a.mask);
            }
            C c(1);
            for (unsigned i = 0; i < n; ++i) c = c * a.m.begin()->second;
            if (ok) exp.emplace(e, c);
            PBT_LOG(t, "power ", n, " of ", show(a.m));
            expect(t, ok, exp, [&] { return P(obake::pow(a.p, n)); }, "power");
            break;
        }
        default: { // derivative / integral in a symbol of a
            if (!a.mask) return;
            unsigned j = static_cast<unsigned>(t.below(NS));
            while (!(a.mask & (1u << j))) j = (j + 1u) % NS;
            if (std::is_same_v<C, double>) {
                // Keep the product of coefficient and exponent exact.
                for (auto &p : a.m) {
                    if (std::abs(p.first[j]) > (expo(1) << 40)) return;
                }
            }
            const auto [lo, hi] = lims_of(a.mask);
            bool ok = true;
            model<C> exp;
            for (const auto &p : a.m) {
                if (p.first[j] == 0) continue;
                auto e = p.first;
                if (wide(e[j]) - 1 < lo) ok = false;
                else --e[j];
                if (ok) add_to(exp, e, C(p.second * static_cast<C>(p.first[j])));
            }
            PBT_LOG(t, "derivative in ", names[j]);
            expect(t, ok, exp, [&] { return P(obake::diff(a.p, names[j])); }, "derivative");
            bool iok = true;
            bool log = false;
            for (const auto &p : a.m) {
                if (p.first[j] == -1) log = true;
                if (wide(p.first[j]) + 1 > hi) iok = false;
            }
            if (log) break;
            exp.clear();
            if (iok) {
                for (const auto &p : a.m) {
                    auto e = p.first;
                    ++e[j];
                    // Truncated division for integer coefficients.
                    const C q = p.second / static_cast<C>(p.first[j] + 1);
                    if (!czero(q)) exp.emplace(e, q);
                }
            }
            PBT_LOG(t, "integral in ", names[j]);
            expect(t, iok, exp, [&] { return P(obake::integrate(a.p, names[j])); }, "integral");
        }
    }
    same(t, a.p, a.m, "left operand");
    same(t, b.p, b.m, "right operand");
}
#if VARIANT == 1 || VARIANT == 4
PBT_SUB(large, 200, 8000,
        "products with one operand above the multi-threading threshold in which at most one pair of terms overflows; "
        "non-trivial: the exact product is not representable")
{
    const mask_t mask = 0x1bu; // 4 symbols
    const auto [lo, hi] = lims_of(mask);
    model<C> a, b;
    const auto n = 1500u + t.below(1500);
    auto rnd = [&](wide l, wide h) {
        auto z = t.raw64();
        mono m{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) {
                const auto span = static_cast<std::uint64_t>(h - l + 1);
                m[j] = static_cast<expo>(l + static_cast<wide>(z % span));
                z /= span;
            }
        }
        return m;
    };
    const wide top = std::min<wide>(hi, 60), bot = std::max<wide>(lo, -60);
    for (std::uint64_t i = 0; i < n; ++i) a[rnd(bot / 2, top / 2)] = C(static_cast<long>(i % 7u) + 1);
    for (std::uint64_t i = 0; i < 1u + t.below(20); ++i) b[rnd(bot / 2, top / 2)] = C(static_cast<long>(i % 5u) + 1);
    // One extreme term in each.
    const auto j = std::vector<unsigned>{0, 1, 3, 4}[t.below(4)];
    const bool up = lo == 0 || t.below(2);
    const wide lim = up ? hi : lo;
    const wide part = lim / 2 + static_cast<wide>(t.sym(3));
    mono ea{}, eb{};
    ea[j] = static_cast<expo>(std::clamp(part, lo, hi));
    eb[j] = static_cast<expo>(std::clamp(lim - part + static_cast<wide>(t.sym(1)), lo, hi));
    a[ea] = C(1);
    b[eb] = C(1);
    const auto pa = build<P>(a, mask, static_cast<unsigned>(t.below(5))), pb = build<P>(b, mask);
    PBT_LOG(t, a.size(), " x ", b.size(), " terms, extreme terms ", show(ea), ", ", show(eb), " limits ", (long)lo, " ", (long)hi);
    const bool ok = product_fits(a, b, mask);
    PBT_CHECK(t, obake::byte_size(pa) >= 30000u, "the generator is too small");
    const bool swp = t.below(2);
    expect(t, ok, ok ? mul(a, b) : model<C>{}, [&] { return swp ? P(pb * pa) : P(pa * pb); }, "large product");
}
#endif

#if VARIANT == 2
// The refusal itself, over ranges of monomials large enough to be examined in parallel.
template <typename K2>
static void ranges_of(pbt::T &t)
{
    using I2 = typename key_traits<K2>::int_t;
    constexpr bool sg = std::is_signed_v<I2>;
    const unsigned n = 1u + static_cast<unsigned>(t.below(4));
    obake::symbol_set ss;
    for (unsigned i = 0; i < n; ++i) ss.insert(names[i]);
    const auto l = key_traits<K2>::lims(n);
    const wide lo = l.first, hi = l.second;
    using row = std::vector<I2>;
    const bool both = t.below(4) == 0u;
    auto fill = [&](std::size_t cnt, wide span) {
        std::vector<row> r(cnt, row(n));
        for (auto &x : r) {
            auto z = t.raw64();
            for (auto &e : x) {
                e = static_cast<I2>(std::clamp<wide>(wide(z & 0xffu) % (2 * span + 1) - (sg ? span : 0), lo, hi));
                z >>= 8;
            }
        }
        return r;
    };
    auto a = fill(5001u + t.below(1500), 3), b = fill(both ? 5001u + t.below(500) : 1u + t.below(4), 1);
    // A few monomials at the edges, anywhere in either range.
    auto place = [&](std::vector<row> &x) {
        const auto k = t.below(4);
        return x.begin() + static_cast<std::ptrdiff_t>(k == 0u ? 0u : (k == 1u ? x.size() - 1u : t.below(x.size())));
    };
    const auto times = 1u + t.below(2);
    for (std::uint64_t i = 0; i < times; ++i) {
        const auto c = t.below(n);
        const bool down = sg && t.below(2);
        const wide lim = down ? lo : hi;
        const wide part = t.below(3) ? lim / 2 : (t.below(2) ? lim : wide(0));
        const wide slack = (down ? 1 : -1) * static_cast<wide>(t.below(6)) + (t.below(3) == 0u ? (down ? -1 : 1) : 0);
        (*place(a))[c] = static_cast<I2>(std::clamp(part, lo, hi));
        (*place(b))[c] = static_cast<I2>(std::clamp(lim - part + slack, lo, hi));
    }
    // Exact answer.
    struct ext {
        std::vector<wide> mn, mx;
        wide dmn, dmx;
    };
    auto extremes = [&](const std::vector<row> &x) {
        ext r;
        r.mn.assign(x[0].begin(), x[0].end());
        r.mx = r.mn;
        bool first = true;
        for (const auto &v : x) {
            wide d = 0;
            for (unsigned i = 0; i < n; ++i) {
                r.mn[i] = std::min<wide>(r.mn[i], v[i]);
                r.mx[i] = std::max<wide>(r.mx[i], v[i]);
                d += v[i];
            }
            r.dmn = first ? d : std::min(r.dmn, d);
            r.dmx = first ? d : std::max(r.dmx, d);
            first = false;
        }
        return r;
    };
    const auto xa = extremes(a), xb = extremes(b);
    bool ok = true, near = false;
    for (unsigned i = 0; i < n; ++i) {
        const wide mn = xa.mn[i] + xb.mn[i], mx = xa.mx[i] + xb.mx[i];
        ok = ok && (!sg || mn >= lo) && mx <= hi;
        near = near || (sg && mn <= lo + 8) || mx >= hi - 8;
    }
    if (key_traits<K2>::dynamic) { // the degree of every product must be representable, too
        ok = ok && (!sg || xa.dmn + xb.dmn >= wide(std::numeric_limits<I2>::min()))
             && xa.dmx + xb.dmx <= wide(std::numeric_limits<I2>::max());
    }
    std::vector<K2> ka, kb;
    for (const auto &v : a) ka.emplace_back(v.begin(), v.end());
    for (const auto &v : b) kb.emplace_back(v.begin(), v.end());
    PBT_LOG(t, a.size(), " x ", b.size(), " monomials in ", n, " symbols");
    PBT_CHECK(t, obake::monomial_range_overflow_check(ka, kb, ss) == ok, "large range on the left, expected ", ok);
    PBT_CHECK(t, obake::monomial_range_overflow_check(kb, ka, ss) == ok, "large range on the right, expected ", ok);
    t.nontrivial(near);
    t.label(ok ? "in range" : "overflows");
}

PBT_SUB(large_ranges, 400, 20000,
        "the overflow check of two ranges of monomials, one or both above the threshold of 5000 for parallel examination, with "
        "a few exponents at or next to the lower or upper limit at generated places (first and last included), for eight "
        "monomial types, against the exact extremes; non-trivial: some exponent of the product is within 8 of a limit")
{
    switch (t.below(8)) {
        case 0: ranges_of<obake::packed_monomial<std::int32_t>>(t); break;
        case 1: ranges_of<obake::packed_monomial<std::int64_t>>(t); break;
        case 2: ranges_of<obake::packed_monomial<std::uint32_t>>(t); break;
        case 3: ranges_of<obake::packed_monomial<std::uint64_t>>(t); break;
        case 4: ranges_of<obake::d_packed_monomial<std::int32_t, 3>>(t); break;
        case 5: ranges_of<obake::d_packed_monomial<std::int64_t, 2>>(t); break;
        case 6: ranges_of<obake::d_packed_monomial<std::uint32_t, 2>>(t); break;
        default: ranges_of<obake::d_packed_monomial<std::int64_t, 1>>(t);
    }
}
#endif
