// S07: serialization.
#include "ps_model.hpp"

#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include <obake/s11n.hpp>

#include "huge.hpp"

using namespace ps;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, pm::rational>;
#elif VARIANT == 2
using P = obake::p_series<obake::d_packed_monomial<std::int32_t, 2>, double>;
#elif VARIANT == 3
using P = obake::p_series<obake::d_packed_monomial<std::uint32_t, 3>, pm::integer>;
#elif VARIANT == 4
using P = obake::polynomial<obake::d_packed_monomial<std::uint64_t, 8>, double>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;
constexpr bool is_ps = obake::any_p_series<P>;

namespace
{
struct item {
    P p;
    model<C> m;
    mask_t mask = 0;
    trunc_t tr;
    unsigned segs = 0;
};
} // namespace

// Doubles of any size: a text archive must keep every bit.
static C any_cf(pbt::T &t)
{
    if constexpr (std::is_same_v<C, double>) {
        if (t.below(2)) {
            const double x = std::ldexp(static_cast<double>(t.raw64() >> 11) + 1, static_cast<int>(t.sym(1000)) - 53);
            return static_cast<C>(t.below(2) ? -x : x);
        }
    }
    auto c = gen_cf<C>(t, true);
    if constexpr (!std::is_same_v<C, double>) {
        if (t.below(4) == 0u) c = c * C(integer(1) << static_cast<unsigned>(t.below(300)));
    }
    return c;
}

static item gen_item(pbt::T &t, bool extremes = true)
{
    item r;
    r.mask = gen_mask(t);
    const auto l = key_traits<K>::lims(mask_size(r.mask));
    const bool wide = extremes && t.below(3) == 0u;
    const auto n = t.scaled(30);
    r.segs = t.below(3) ? 0u : static_cast<unsigned>(t.below(7));
    for (std::uint64_t i = 0; i < n; ++i) {
        mono e{};
        for (unsigned j = 0; j < NS; ++j) {
            if (!(r.mask & (1u << j))) continue;
            auto x = sg ? t.sym(3) : static_cast<std::int64_t>(t.below(6));
            if (wide && t.below(3) == 0u) {
                const auto hi = static_cast<std::int64_t>(std::min<std::uint64_t>(static_cast<std::uint64_t>(l.second), 1ull << 61));
                x = hi - static_cast<std::int64_t>(t.below(2));
                if (sg && t.below(2)) x = std::max<std::int64_t>(static_cast<std::int64_t>(l.first), -hi);
            }
            e[j] = x;
        }
        // Sums of exponents near the limits are no business of this property.
        if (is_ps && (tdeg(e) > 100 || tdeg(e) < -100)) continue;
        r.m[e] = any_cf(t);
    }
    r.p = build<P>(r.m, r.mask, r.segs);
    if constexpr (is_ps) {
        r.tr = gen_trunc(t, sg);
        set_tr(r.p, r.tr);
        r.m = cut(r.m, r.tr);
    }
    return r;
}

static void check(pbt::T &t, const P &q, const item &a, const char *what)
{
    pm::same(t, q, a.m, what);
    PBT_CHECK(t, ss_mask(q.get_symbol_set()) == a.mask, what, ": symbol set");
    PBT_CHECK(t, q.get_s_size() == a.p.get_s_size(), what, ": number of segments");
    PBT_CHECK(t, q == a.p && a.p == q, what, ": not equal");
    if constexpr (is_ps) {
        PBT_CHECK(t, get_tr(q) == a.tr, what, ": truncation ", show(get_tr(q)), ", expected ", show(a.tr));
    }
    // Every term is found, and the restored series works as an operand.
    for (const auto &term : a.p) {
        const auto it = q.find(term.first);
        PBT_CHECK(t, it != q.end() && it->second == term.second, what, ": a term is not found");
    }
    const P z = q - a.p;
    PBT_CHECK(t, z.empty(), what, ": the difference is not zero");
}

template <typename OA, typename IA>
static void round_trip(pbt::T &t)
{
    const auto n = 1u + t.below(4);
    std::vector<item> v;
    for (std::uint64_t i = 0; i < n; ++i) v.push_back(gen_item(t));
    const auto old = gen_item(t);
    std::map<std::string, P> mp;
    for (const auto &x : v) mp[std::to_string(mp.size())] = x.p;
    std::stringstream ss;
    {
        OA oa(ss);
        for (const auto &x : v) oa << x.p;
        oa << std::as_const(mp);
        oa << v[0].p;
    }
    P q(old.p);
    {
        IA ia(ss);
        bool same_target = t.below(2);
        for (const auto &x : v) {
            P fresh(old.p);
            P &target = same_target ? q : fresh;
            ia >> target;
            check(t, target, x, "restored");
        }
        std::map<std::string, P> m2;
        ia >> m2;
        PBT_CHECK(t, m2.size() == v.size());
        std::size_t i = 0;
        for (const auto &x : m2) check(t, x.second, v[i++], "restored in a container");
        P again;
        ia >> again;
        check(t, again, v[0], "restored again");
    }
    for (const auto &x : v) t.nontrivial(x.m.size() > 1u && x.mask);
}

PBT_SUB(round_trip, 12000, 400000,
        "one to four series, with or without segments and truncations, exponents up to the limits, saved to and restored from "
        "one text or binary archive, alone and in containers, into targets with other contents; non-trivial: a series with "
        "at least two terms and a symbol")
{
    if (t.below(2)) {
        t.label("text");
        round_trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(t);
    } else {
        t.label("binary");
        round_trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(t);
    }
}

PBT_SUB(cut_short, 12000, 400000,
        "an archive that ends too early, restored into a series with other contents: an exception leaves an empty usable "
        "series; non-trivial: the archive ends within the series")
{
    const auto a = gen_item(t), old = gen_item(t);
    std::stringstream ss;
    const auto flags = boost::archive::no_header;
    std::string whole;
    {
        std::ostringstream o;
        boost::archive::binary_oarchive oa(o, flags);
        oa << a.p;
        whole = o.str();
    }
    const auto len = t.below(whole.size() + 1u);
    std::istringstream in(whole.substr(0, len));
    P q(old.p);
    bool threw = false;
    try {
        boost::archive::binary_iarchive ia(in, flags);
        ia >> q;
    } catch (const boost::archive::archive_exception &) {
        threw = true;
    }
    PBT_CHECK(t, threw == (len < whole.size()), "archive of ", whole.size(), " bytes cut to ", len, threw ? ": threw" : ": did not throw");
    if (threw) {
        t.nontrivial();
        // Cut in the class information, before the series' own load: the target is not touched.
        if (q.empty() && q.get_symbol_set().empty()) {
            // (An untouched target may be empty too.)
            const bool blank = old.p.empty() && old.p.get_symbol_set().empty();
            if constexpr (is_ps) {
                PBT_CHECK(t, get_tr(q) == trunc_t{} || (blank && get_tr(q) == get_tr(old.p)), "truncation after a failure");
            }
            static_cast<void>(blank);
        } else {
            check(t, q, old, "untouched target");
        }
    } else {
        check(t, q, a, "restored");
    }
    // Still usable.
    q = a.p;
    check(t, q, a, "assigned after a failure");
}

#if VARIANT == 1
PBT_SUB(nested, 6000, 200000,
        "polynomials whose coefficients are polynomials, symbol sets with arbitrary names, monomials and 128-bit integers; "
        "non-trivial: two coefficients with at least one symbol each")
{
    using PP = obake::polynomial<obake::d_packed_monomial<std::int32_t, 4>, P>;
    PP a;
    const auto mask = gen_mask(t);
    a.set_symbol_set(to_ss(mask));
    if (t.below(2)) a.set_n_segments(static_cast<unsigned>(t.below(4)));
    unsigned good = 0;
    for (std::uint64_t i = 0, n = t.below(6); i < n; ++i) {
        // Two terms with the same key are added up: no extreme exponents.
        auto c = gen_item(t, false);
        mono e{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) e[j] = t.sym(5);
        }
        good += c.mask && !c.m.empty();
        a.add_term(make_key<obake::series_key_t<PP>>(e, mask), c.p);
    }
    std::vector<std::string> nm;
    for (std::uint64_t i = 0, n = t.below(6); i < n; ++i) {
        std::string s;
        for (std::uint64_t k = t.below(5); k > 0; --k) s += t.below(3) ? static_cast<char>('a' + t.below(3)) : static_cast<char>(t.below(256));
        nm.push_back(s);
    }
    const obake::symbol_set names_ss(nm.begin(), nm.end());
    PP b;
    b.set_symbol_set(names_ss);
    const auto big = static_cast<__int128_t>((static_cast<__uint128_t>(t.raw64()) << 64) + t.raw64());
    const auto ubig = static_cast<__uint128_t>(big) + t.below(2);
    PP a2(b), b2(a);
    obake::symbol_set s2{"old", "names"};
    __int128_t big2 = 1;
    __uint128_t ubig2 = 1;
    std::stringstream ss;
    auto go = [&]<typename OA, typename IA>(OA *, IA *) {
        {
            OA oa(ss);
            oa << a << names_ss << b << big << ubig;
        }
        IA ia(ss);
        ia >> a2 >> s2 >> b2 >> big2 >> ubig2;
    };
    using namespace boost::archive;
    // Text archives only know the types that streams know: 128-bit integers are for binary ones.
    go(static_cast<binary_oarchive *>(nullptr), static_cast<binary_iarchive *>(nullptr));
    PBT_CHECK(t, a2 == a && a2.get_symbol_set() == a.get_symbol_set() && a2.size() == a.size() && a2.get_s_size() == a.get_s_size(),
              "nested series");
    for (const auto &x : a) {
        const auto it = a2.find(x.first);
        PBT_CHECK(t, it != a2.end() && it->second == x.second && it->second.get_symbol_set() == x.second.get_symbol_set(), "coefficient");
    }
    PBT_CHECK(t, s2 == names_ss && b2.get_symbol_set() == names_ss && b2 == b, "symbol sets");
    PBT_CHECK(t, big2 == big && ubig2 == ubig, "128-bit integers");
    std::stringstream st;
    {
        text_oarchive oa(st);
        oa << a << names_ss << b;
    }
    PP a3(b), b3(a);
    obake::symbol_set s3{"z"};
    text_iarchive ia(st);
    ia >> a3 >> s3 >> b3;
    PBT_CHECK(t, a3 == a && a3.get_symbol_set() == a.get_symbol_set() && s3 == names_ss && b3.get_symbol_set() == names_ss, "text archive");
    t.nontrivial(good > 1u);
}
#endif

PBT_SUB(huge, 8, 400,
        "series of 15000 to 91125 terms in up to 4096 segments, saved and restored; non-trivial: always")
{
    t.nontrivial();
    const auto s = huge::gen(t);
    const auto p = huge::make<P>(s);
    P q(t.below(2) ? p : P{});
    std::stringstream ss;
    const auto go = [&]<typename OA, typename IA>(OA *, IA *) {
        {
            OA oa(ss);
            oa << p;
        }
        IA ia(ss);
        ia >> q;
    };
    using namespace boost::archive;
    if (t.below(2)) go(static_cast<text_oarchive *>(nullptr), static_cast<text_iarchive *>(nullptr));
    else go(static_cast<binary_oarchive *>(nullptr), static_cast<binary_iarchive *>(nullptr));
    huge::same(t, q, huge::coefs(s), "restored");
    PBT_CHECK(t, q.get_s_size() == s.segs && q == p && q.get_symbol_set() == p.get_symbol_set(), "restored");
}
