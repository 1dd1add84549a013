// A02: the multi-threaded multiplication with coefficients that are polynomials themselves.
#include "nest_model.hpp"

#include <obake/byte_size.hpp>

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, P>;
#elif VARIANT == 2
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
using Q = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, P>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<Q>;

namespace
{
struct pool_t {
    P p;
    model<C> m;
};
npair_t<Q> gen_big(pbt::T &t, mask_t mo, const std::vector<pool_t> &pool, std::size_t n, expo hi)
{
    npair_t<Q> r;
    r.mo = mo;
    r.q.set_symbol_set(to_ss(mo));
    if (const auto s = static_cast<unsigned>(t.below(4))) r.q.set_n_segments(s);
    std::set<mono> seen;
    for (std::size_t i = 0; i < n; ++i) {
        auto z = t.raw64();
        mono m{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mo & (1u << j)) {
                m[j] = static_cast<expo>(z % static_cast<std::uint64_t>(hi + 1));
                z /= static_cast<std::uint64_t>(hi + 1);
            }
        }
        if (!seen.insert(m).second) continue;
        const auto &c = pool[(z ^ i) % pool.size()];
        r.q.add_term(make_key<K>(m, mo), c.p);
        for (const auto &x : c.m) r.m.emplace(both(m, x.first), x.second);
    }
    return r;
}
} // namespace

PBT_SUB(nested_large, 500, 20000,
        "products of polynomials with polynomial coefficients (drawn from a few that cancel and combine, each over its own "
        "symbols), one operand above the multi-threading threshold, against the model product; non-trivial: the operand "
        "really is above the threshold")
{
    std::vector<pool_t> pool;
    const auto npool = 1u + t.below(5);
    for (unsigned i = 0; i < npool; ++i) {
        const auto mi = gen_mask(t) | 1u;
        auto m = gen_model<C>(t, mi, 2, erange{0, 2});
        for (auto &p : m) p.second = C(static_cast<int>(t.below(2) ? 1 : -1));
        if (m.empty()) m = constant(C(1));
        pool.push_back({build<P>(m, mi, static_cast<unsigned>(t.below(2))), m});
        if (t.below(2)) pool.push_back({-pool.back().p, neg(m)});
    }
    mask_t ma = gen_mask(t) | 3u, mb = t.below(3) ? ma : (gen_mask(t) | 3u);
    const auto hi = static_cast<expo>(3 + t.below(30));
    auto a = gen_big(t, ma, pool, 1u + t.below(20), hi);
    auto b = gen_big(t, mb, pool, 120u + t.below(200), hi);
    if (t.below(2)) std::swap(a, b);
    const bool mt = std::max(obake::byte_size(a.q), obake::byte_size(b.q)) >= 30000u;
    t.nontrivial(mt);
    PBT_LOG(t, a.q.size(), " terms over ", ma, " times ", b.q.size(), " over ", mb, " coefficients:");
    for (const auto &c : pool) PBT_LOG(t, "  ", show(c.m));
    const auto exp = mul(a.m, b.m);
    const Q r = a.q * b.q;
    if (mt) t.label(pbt::cat("log2 segments ", r.get_s_size()));
    const auto g = to_nmodel(r);
    if (!(g == exp)) {
        std::string d;
        unsigned n = 0;
        for (const auto &p : exp) {
            auto it = g.find(p.first);
            if (it == g.end() || !(it->second == p.second)) {
                if (++n < 4u) d += pbt::cat(" wrong or missing ", show(outer(p.first)), " [", show(inner(p.first)), "]");
            }
        }
        for (const auto &p : g) {
            if (!exp.count(p.first) && ++n < 4u) d += pbt::cat(" extra ", show(outer(p.first)));
        }
        t.fail(pbt::cat("product: ", n, " terms differ (", g.size(), " got, ", exp.size(), " expected)", d));
    }
    nsame(t, a.q, a.m, "left operand");
    nsame(t, b.q, b.m, "right operand");
}
