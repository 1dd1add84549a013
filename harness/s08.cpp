// S08: symbol sets: merging, intersecting, mapping, printing, hashing, saving.
#include <pbt.hpp>

#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <obake/symbols.hpp>

namespace
{

using namespace obake;

std::string gen_name(pbt::T &t, bool weird)
{
    static const char *const pool[] = {"x", "y", "z", "a", "b", "c", "x1", "x10", "x2", "X", "xx", "x_0", "d", "e", "f", "g"};
    if (!weird || t.below(3)) return pool[t.below(std::size(pool))];
    std::string s;
    const auto n = t.below(5);
    for (std::uint64_t i = 0; i < n; ++i) {
        static const char alphabet[] = {'a', 'b', 'A', '0', ' ', '\'', ',', '{', '}', '\0', '\x7f', '\x80', '\xff', '\n'};
        s += alphabet[t.below(sizeof(alphabet))];
    }
    return s;
}

// Reference: std::set (same order).
using rset = std::set<std::string>;

rset gen_set(pbt::T &t, bool weird)
{
    rset r;
    const auto n = t.below(t.below(4) == 0 ? 24 : 8);
    for (std::uint64_t i = 0; i < n; ++i) r.insert(gen_name(t, weird));
    return r;
}

symbol_set ss(const rset &r)
{
    return symbol_set(r.begin(), r.end());
}

bool same(const symbol_set &a, const rset &b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}

std::string show(const rset &r)
{
    std::string s = "[";
    for (const auto &x : r) {
        if (s.size() > 2000) return s + "... " + std::to_string(r.size()) + " in all]";
        s += "\"" + x + "\" ";
    }
    return s + "]";
}

// The pairs of the second set, related to the first.
rset related(pbt::T &t, const rset &a, bool weird)
{
    switch (t.below(4)) {
        case 0: { // a subset
            rset r;
            for (const auto &x : a) {
                if (t.below(2)) r.insert(x);
            }
            return r;
        }
        case 1: { // subset and others
            rset r = gen_set(t, weird);
            for (const auto &x : a) {
                if (t.below(2)) r.insert(x);
            }
            return r;
        }
        case 2:
            return t.below(3) ? gen_set(t, weird) : a;
        default:
            return gen_set(t, weird);
    }
}

// Apply an insertion map the way its definition says: before position i of s (or at the end), insert the names.
std::vector<std::string> apply(pbt::T &t, const rset &s, const symbol_idx_map<symbol_set> &m)
{
    std::vector<std::string> out;
    std::size_t i = 0;
    for (const auto &p : m) PBT_CHECK(t, p.first <= s.size() && !p.second.empty(), "index ", p.first);
    for (const auto &x : s) {
        const auto it = m.find(i++);
        if (it != m.end()) out.insert(out.end(), it->second.begin(), it->second.end());
        out.push_back(x);
    }
    const auto it = m.find(i);
    if (it != m.end()) out.insert(out.end(), it->second.begin(), it->second.end());
    return out;
}

void check_merge(pbt::T &t, const rset &a, const rset &b)
{
    rset u = a;
    u.insert(b.begin(), b.end());
    t.nontrivial(u.size() > a.size() && u.size() > b.size());
    const auto sa = ss(a), sb = ss(b);
    const auto [su, ma, mb] = detail::merge_symbol_sets(sa, sb);
    PBT_CHECK(t, same(su, u), "the union of ", show(a), " and ", show(b));
    const std::vector<std::string> uv(u.begin(), u.end());
    PBT_CHECK(t, apply(t, a, ma) == uv, show(a), show(b));
    PBT_CHECK(t, apply(t, b, mb) == uv, show(a), show(b));
    // No symbol is inserted that is already there.
    std::size_t na = 0, nb = 0;
    for (const auto &p : ma) na += p.second.size();
    for (const auto &p : mb) nb += p.second.size();
    PBT_CHECK(t, na == u.size() - a.size() && nb == u.size() - b.size());
    PBT_CHECK(t, same(sa, a) && same(sb, b));
}

PBT_SUB(merge, 300000, 8000000,
        "pairs of symbol sets (equal, nested, disjoint, interleaved, odd characters): the union is the set union and each "
        "insertion map turns its set into the union; non-trivial: each set has a symbol the other lacks")
{
    const bool weird = t.below(3) == 0;
    const auto a = gen_set(t, weird);
    const auto b = related(t, a, weird);
    PBT_LOG(t, show(a), " and ", show(b));
    check_merge(t, a, b);
}

void check_intersect(pbt::T &t, const rset &s, const rset &ref)
{
    symbol_map<int> sm;
    int v = 0;
    for (const auto &x : s) sm[x] = static_cast<int>(t.below(100)) + 1000 * v++;
    std::map<std::size_t, int> expect;
    std::size_t i = 0;
    for (const auto &x : ref) {
        if (s.count(x)) expect[i] = sm[x];
        ++i;
    }
    t.nontrivial(!expect.empty() && expect.size() < ref.size() && expect.size() < s.size());
    const auto sref = ss(ref), sss = ss(s);
    const auto is = detail::ss_intersect_idx(sss, sref);
    const auto im = detail::sm_intersect_idx(sm, sref);
    PBT_CHECK(t, is.size() == expect.size() && im.size() == expect.size(), show(s), show(ref));
    auto e = expect.begin();
    auto mi = im.begin();
    for (const auto idx : is) {
        PBT_CHECK(t, idx == e->first && mi->first == e->first && mi->second == e->second, show(s), show(ref));
        ++e;
        ++mi;
    }
    PBT_CHECK(t, same(sref, ref) && same(sss, s) && sm.size() == s.size());
}

PBT_SUB(intersect, 300000, 8000000,
        "pairs of a symbol set (or a map from symbols to values) and a reference set: the positions in the reference set "
        "of the common symbols, with their values; non-trivial: some but not all symbols are common")
{
    const bool weird = t.below(3) == 0;
    const auto ref = gen_set(t, weird);
    const auto s = related(t, ref, weird);
    PBT_LOG(t, show(s), " in ", show(ref));
    check_intersect(t, s, ref);
}

// Two large sets: runs of names which are in neither, one or both of them.
std::pair<rset, rset> gen_large(pbt::T &t)
{
    const auto n = t.below(60) == 0 ? 66000 + t.below(80000) : 100 + t.below(700);
    const auto longest = 1 + t.below(n);
    const auto pad = std::string(t.below(3) ? 0 : t.below(300), 'p');
    std::pair<rset, rset> r;
    for (std::uint64_t i = 0; i < n;) {
        const auto cls = t.below(5);
        for (auto len = 1 + t.below(longest); len != 0 && i < n; --len, ++i) {
            auto x = std::to_string(i);
            x = pad + std::string(6 - x.size(), '0') + x;
            if (cls == 1 || cls > 2) r.first.insert(r.first.end(), x);
            if (cls >= 2) r.second.insert(r.second.end(), x);
        }
        if (longest < 16 && n > 1000 && i > 200) {
            // Few choices for the largest sets: go on with one of the patterns.
            for (; i < n; ++i) {
                auto x = std::to_string(i);
                x = pad + std::string(6 - x.size(), '0') + x;
                if (i % 3 != 0) r.first.insert(r.first.end(), x);
                if (i % 3 != 1) r.second.insert(r.second.end(), x);
            }
        }
    }
    return r;
}

std::string sizes(const std::pair<rset, rset> &p)
{
    return std::to_string(p.first.size()) + " and " + std::to_string(p.second.size()) + " symbols";
}

PBT_SUB(large, 1500, 40000,
        "the same for sets of hundreds of symbols, a few of them of tens of thousands, whose names may have hundreds of "
        "characters; non-trivial: some but not all symbols are common")
{
    const auto p = gen_large(t);
    PBT_LOG(t, sizes(p));
    check_merge(t, p.first, p.second);
    check_intersect(t, p.first, p.second);
}

template <typename OA, typename IA>
std::pair<symbol_set, symbol_set> through(const symbol_set &a, const symbol_set &b, bool dirty)
{
    std::stringstream st;
    {
        OA oa(st);
        oa << a << b;
    }
    std::pair<symbol_set, symbol_set> r;
    if (dirty) r = {symbol_set{"old", "values"}, symbol_set{"zzz"}};
    IA ia(st);
    ia >> r.first >> r.second;
    return r;
}

void check_render(pbt::T &t, const rset &a, const rset &b)
{
    t.nontrivial(a.size() >= 2);
    std::string s = "{";
    bool first = true;
    for (const auto &x : a) {
        s += std::string(first ? "" : ", ") + "'" + x + "'";
        first = false;
    }
    s += "}";
    const auto sa = ss(a), sb = ss(b);
    PBT_CHECK(t, detail::to_string(sa) == s, detail::to_string(sa), " expected ", s);
    const bool dirty = t.below(2) != 0;
    const auto p = t.below(2) ? through<boost::archive::text_oarchive, boost::archive::text_iarchive>(sa, sb, dirty)
                              : through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(sa, sb, dirty);
    PBT_CHECK(t, p.first == sa && p.second == sb, show(a), show(b));
    // The loaded sets are proper sets.
    auto q = p.first;
    q.insert("x");
    auto r = a;
    r.insert("x");
    PBT_CHECK(t, same(q, r));
    const detail::ss_fw fa(sa), fb(sb), fa2(ss(rset(a)));
    const detail::ss_fw_hasher h{};
    PBT_CHECK(t, h(sa) == h(p.first));
    PBT_CHECK(t, fa == fa2 && &fa.get() == &fa2.get());
    PBT_CHECK(t, (fa == fb) == (a == b) && (&fa.get() == &fb.get()) == (a == b));
    PBT_CHECK(t, fa.get() == sa && fb.get() == sb);
}

PBT_SUB(render, 60000, 2000000,
        "printing lists the quoted names in order; saving and loading (text and binary, into fresh and used objects) "
        "gives the same sets; equal sets hash equally and share one flyweight; non-trivial: at least two symbols")
{
    const bool weird = t.below(3) == 0;
    const auto a = gen_set(t, weird);
    const auto b = related(t, a, weird);
    check_render(t, a, b);
}

PBT_SUB(render_large, 600, 20000,
        "the same for sets of hundreds of symbols, a few of them of tens of thousands; non-trivial: at least two symbols")
{
    const auto p = gen_large(t);
    PBT_LOG(t, sizes(p));
    check_render(t, p.first, p.second);
}

} // namespace
