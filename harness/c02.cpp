// C02: the parallel algorithms, with the division of the work and the schedule generated.
// Compiled with the thread sanitizer and the stand-in for oneTBB of shim_tbb/.
#if VARIANT > 4
#define TRUNC
#endif
#define NO_SUBS
#define A02_VARIANT ((VARIANT - 1) % 4 + 1)
#include "pbt.hpp"

#include <tbb/pbt_tbb.hpp>

#include <obake/byte_size.hpp>

#include "a02.cpp"

static void schedule(pbt::T &t)
{
    const auto k = t.below(4);
    pbt_tbb::configure(k == 0u ? pbt_tbb::mode::serial : (k == 1u ? pbt_tbb::mode::steal : pbt_tbb::mode::threads),
                       t.below(1u << 30), 2u + static_cast<unsigned>(t.below(4)));
}

#if defined(TRUNC)
PBT_RACY_SUB(truncated_products, 100, 8000,
             "truncated products of operands above the threshold for parallel multiplication, divided at generated points, "
             "each task in its own thread under the thread sanitizer (or in one thread, in generated order), against the "
             "filtered model product; non-trivial: above the threshold, some but not all terms removed")
{
    schedule(t);
    trunc(t, true);
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
}
#else
PBT_RACY_SUB(products, 100, 8000,
             "products of operands above the threshold for parallel multiplication, divided at generated points, each task in "
             "its own thread under the thread sanitizer (or in one thread, in generated order), against the model product; "
             "non-trivial: the operand really is above the threshold")
{
    schedule(t);
    full(t, true);
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
}

PBT_RACY_SUB(segmented, 150, 12000,
             "copies, sums, sizes in bytes, comparisons, clearings and moves of series with many segments, divided likewise; "
             "non-trivial: at least two segments and ten terms")
{
    schedule(t);
    const mask_t mask = gen_mask(t) | 1u;
    const auto m = gen_terms<C>(t, mask, 1u + t.below(200), erange{0, 5}, static_cast<unsigned>(t.below(200)));
    const auto segs = static_cast<unsigned>(t.below(6));
    P p = build<P>(m, mask, segs);
    const P one = build<P>(m, mask, 0);
    P q(p);
    PBT_CHECK(t, q == p && one == p && p == one, "copies differ");
    // The size in bytes: the object, its tables, and what the coefficients and keys hold.
    const auto b = obake::byte_size(p);
    PBT_CHECK(t, b == obake::byte_size(p), "the size in bytes varies");
    PBT_CHECK(t, b > m.size() * sizeof(C), "size in bytes ", b, " for ", m.size(), " terms");
    // Dividing the work differently does not change it.
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 1u);
    PBT_CHECK(t, b == obake::byte_size(p), "the size in bytes depends on the division of the work");
    schedule(t);
    const P s = p + one;
    auto exp = add(m, m);
    short_same(t, s, exp, "sum");
    q = P{};
    PBT_CHECK(t, q.empty() && q.size() == 0u);
    q = std::move(p);
    short_same(t, q, m, "moved");
    q.clear();
    PBT_CHECK(t, q.empty());
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
    t.nontrivial(segs > 0u && m.size() >= 10u);
}

// The overflow checks of products look at all the monomials in parallel.
PBT_RACY_SUB(overflow_checks, 60, 5000,
             "products of large operands in which one monomial of each, at a generated place, has an exponent at the limit or "
             "just beyond what the other allows, divided likewise: refused exactly when the sum does not fit; non-trivial: the "
             "exponents are within one of the limit")
{
    schedule(t);
    const mask_t mask = 7u;
    const auto lims = key_traits<K>::lims(3u);
    auto a = gen_terms<C>(t, mask, 1u + t.below(3), erange{0, 1}, 0);
    auto b = gen_terms<C>(t, mask, 5200u + t.below(200), erange{0, 39}, 0);
    const auto top = static_cast<expo>(lims.second);
    const auto bot = static_cast<expo>(lims.first);
    if (top > (expo(1) << 40)) return;
    // Near the upper limit, or, for signed exponents, the lower one.
    const bool low = bot < 0 && t.below(2);
    const auto far = low ? -bot : top;
    const unsigned var = static_cast<unsigned>(t.below(3));
    mono ka{}, kb{};
    const auto x = static_cast<expo>(t.below(static_cast<std::uint64_t>(far) + 1u));
    const auto d = t.sym(1);
    if (far - x + d < 0 || far - x + d > far) return;
    ka[var] = low ? -x : x;
    kb[var] = low ? -(far - x + d) : far - x + d;
    // Only these two come near the limit; the others add at most 39 to each.
    if (!low && (x + 39 > top || kb[var] + 1 > top)) return;
    a[ka] = C(1);
    b[kb] = C(1);
    const P pa = build<P>(a, mask, static_cast<unsigned>(t.below(3)));
    const P pb = build<P>(b, mask, static_cast<unsigned>(t.below(3)));
    bool fits = true;
    for (unsigned i = 0; i < 3u; ++i) {
        auto lim = [i](const auto &m) {
            auto r = std::make_pair(m.begin()->first[i], m.begin()->first[i]);
            for (const auto &q : m) r = {std::min(r.first, q.first[i]), std::max(r.second, q.first[i])};
            return r;
        };
        const auto la = lim(a), lb = lim(b);
        fits = fits && la.second + lb.second <= top && la.first + lb.first >= bot;
    }
    if (fits) {
        const P r = pa * pb;
        short_same(t, r, mul(a, b), "product");
    } else {
        PBT_THROWS(t, std::overflow_error, pa * pb, "exponents ", ka[var], " and ", kb[var], " with limits ", bot, " and ", top);
    }
    t.nontrivial(true);
    t.label(fits ? "fits" : "overflows");
    if (low) t.label("lower limit");
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
}
#endif
