// S02: equality of series is equality of the mathematical objects.
#include "poly_model.hpp"
#include "ukey.hpp"

#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using K = obake::packed_monomial<std::int64_t>;
using tag_t = obake::polynomials::tag;
#elif VARIANT == 2
using K = obake::d_packed_monomial<std::int32_t, 3>;
using tag_t = obake::polynomials::tag;
#elif VARIANT == 3
using K = uk::ukey;
using tag_t = uk::utag;
#elif VARIANT == 21
using K = obake::d_packed_monomial<std::int64_t, 4>;
using tag_t = obake::polynomials::tag;
#endif
template <typename C>
using S = obake::series<K, C, tag_t>;
constexpr bool user = std::is_same_v<K, uk::ukey>;

template <typename C>
static C as(long n)
{
    return static_cast<C>(n);
}

namespace
{
struct abstract {
    model<long> m;
    mask_t mask;
    int tag;
};
} // namespace

template <typename C>
static S<C> make(pbt::T &t, const abstract &a)
{
    S<C> r;
    r.set_symbol_set(to_ss(a.mask));
    r.set_n_segments(static_cast<unsigned>(t.below(4)));
    std::vector<std::pair<mono, long>> v(a.m.begin(), a.m.end());
    // Random order, and detours through other values.
    while (!v.empty()) {
        const auto i = t.below(v.size());
        const auto k = make_key<K>(v[i].first, a.mask);
        if (t.below(8) == 0) {
            r.add_term(k, as<C>(v[i].second - 3));
            r.add_term(k, as<C>(3));
        } else {
            r.add_term(k, as<C>(v[i].second));
        }
        v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
    }
    if constexpr (user) r.tag().v = a.tag;
    return r;
}

template <typename F>
static void with_type(pbt::T &t, const abstract &a, F f)
{
    switch (t.below(3)) {
        case 0:
            f(make<rational>(t, a));
            break;
        case 1:
            f(make<integer>(t, a));
            break;
        default:
            f(make<double>(t, a));
    }
}

PBT_SUB(pairs, 60000, 2000000,
        "pairs of series of every mixture of coefficient types, over different symbol sets and segmentations, built in "
        "different orders, equal or differing in one term or in their tag; == and != in both directions and value "
        "categories against equality of the models; non-trivial: at least two terms and different symbol sets")
{
    abstract a, b;
    a.mask = gen_mask(t);
    a.tag = static_cast<int>(t.below(2));
    a.m = gen_model<long>(t, a.mask, t.scaled(10), erange{0, 3});
    b = a;
    switch (t.below(6)) {
        case 0: // change a coefficient
            if (!b.m.empty()) {
                auto it = std::next(b.m.begin(), static_cast<std::ptrdiff_t>(t.below(b.m.size())));
                it->second += it->second == -1 ? 2 : 1;
            }
            break;
        case 1: { // another term instead
            if (!b.m.empty()) b.m.erase(std::next(b.m.begin(), static_cast<std::ptrdiff_t>(t.below(b.m.size()))));
            mono e{};
            for (unsigned j = 0; j < NS; ++j) {
                if (b.mask & (1u << j)) e[j] = static_cast<expo>(t.below(4));
            }
            add_to(b.m, e, 1l);
            break;
        }
        case 2: { // a term more or less
            if (!b.m.empty()) b.m.erase(b.m.begin());
            break;
        }
        case 3: { // exchange the roles of two symbols: the same packed keys over another symbol set
            mask_t used = 0;
            for (const auto &p : a.m) {
                for (unsigned j = 0; j < NS; ++j) {
                    if (p.first[j]) used |= 1u << j;
                }
            }
            unsigned from = static_cast<unsigned>(t.below(NS)), to = static_cast<unsigned>(t.below(NS));
            if ((b.mask & (1u << from)) && !(b.mask & (1u << to))) {
                b.mask ^= (1u << from) | (1u << to);
                model<long> m;
                for (const auto &p : b.m) {
                    auto e = p.first;
                    std::swap(e[from], e[to]);
                    m.emplace(e, p.second);
                }
                b.m = m;
            }
            break;
        }
        case 4:
            b.tag = 1 - b.tag;
            break;
        default:
            break;
    }
    // More symbols, not used by any term.
    if (t.below(2)) a.mask |= gen_mask(t);
    if (t.below(2)) b.mask |= gen_mask(t);
    const bool exp = a.m == b.m && (!user || a.tag == b.tag);
    t.label(exp ? "equal" : "different");
    t.nontrivial(a.m.size() > 1u && b.m.size() > 1u && a.mask != b.mask);
    PBT_LOG(t, "a=", show(a.m), " over ", a.mask, " tag ", a.tag, "  b=", show(b.m), " over ", b.mask, " tag ", b.tag);
    with_type(t, a, [&](const auto &x) {
        with_type(t, b, [&](const auto &y) {
            PBT_CHECK(t, (x == y) == exp, "x == y");
            PBT_CHECK(t, (x != y) == !exp, "x != y");
            PBT_CHECK(t, (y == x) == exp, "y == x");
            auto x2(x);
            auto y2(y);
            PBT_CHECK(t, (std::move(x2) == std::move(y2)) == exp, "rvalues");
            PBT_CHECK(t, x == x && !(x != x), "reflexive");
            auto x3(x);
            PBT_CHECK(t, (std::move(x3) != y) == !exp, "rvalue, lvalue");
            x3 = x;
            PBT_CHECK(t, x3 == x, "a copy");
        });
    });
}

PBT_SUB(scalars, 40000, 1000000,
        "comparison with numbers, and of nested series with their coefficient series, both ways round: equal exactly when "
        "the series consists of that constant; non-trivial: a constant series or one extra term")
{
    abstract a;
    a.mask = gen_mask(t);
    a.tag = 0;
    a.m = gen_model<long>(t, a.mask, 2, erange{0, 1});
    const long n = t.sym(3);
    if (t.below(3) == 0) {
        a.m.clear();
        if (n) a.m.emplace(mono{}, n);
    }
    const bool exp = a.m == constant<long>(n);
    t.label(exp ? "equal" : "different");
    t.nontrivial(!a.m.empty());
    PBT_LOG(t, show(a.m), " over ", a.mask, " vs ", n);
    with_type(t, a, [&](const auto &x) {
        PBT_CHECK(t, (x == static_cast<int>(n)) == exp && (static_cast<int>(n) == x) == exp, "int");
        PBT_CHECK(t, (x == integer(n)) == exp && (integer(n) != x) == !exp, "integer");
        PBT_CHECK(t, (x == static_cast<double>(n)) == exp && (static_cast<double>(n) != x) == !exp, "double");
        PBT_CHECK(t, !(x == static_cast<double>(n) + .5), "half");
        // One rank up.
        using X = std::remove_cvref_t<decltype(x)>;
        obake::series<K, X, tag_t> up(x);
        PBT_CHECK(t, (up == x) && (x == up) && !(up != x), "the series as a coefficient");
        auto y(x);
        y.add_term(make_key<K>(mono{}, a.mask), 5);
        PBT_CHECK(t, (up != y) && (y != up), "a different coefficient");
        PBT_CHECK(t, (up == static_cast<int>(n)) == exp, "two ranks");
    });
}

// The hash of the user keys is too weak for this many.
#if VARIANT != 3
PBT_SUB(huge, 8, 400,
        "equal series of 15000 to 91125 terms in different numbers of segments, and series which differ in one term; non-trivial: always")
{
    t.nontrivial();
    huge::equal<S<integer>>(t);
}
#endif
