// S01: a series is a map from keys to nonzero coefficients: histories of operations against a reference map.
#include "poly_model.hpp"
#include "ukey.hpp"

#include <sstream>

#include "huge.hpp"

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 3>, integer>;
#elif VARIANT == 3
using P = obake::polynomial<obake::packed_monomial<std::uint32_t>, double>;
#elif VARIANT == 4
using P = obake::series<uk::ukey, integer, uk::utag>;
#endif
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using I = key_traits<K>::int_t;
constexpr bool sg = std::is_signed_v<I>;
constexpr bool user = std::is_same_v<K, uk::ukey>;

namespace
{
struct state {
    P p;
    model<C> m;
    mask_t mask = 0;
    unsigned segs = 0;
};
} // namespace

static mono gen_mono(pbt::T &t, mask_t mask)
{
    mono e{};
    for (unsigned j = 0; j < NS; ++j) {
        if (mask & (1u << j)) {
            e[j] = sg ? t.sym(2) : static_cast<expo>(t.below(4));
            if (user && t.below(40) == 0) e[j] = uk::zero_exponent;
        }
    }
    return e;
}
static bool zero_key(const mono &m)
{
    if (!user) return false;
    for (auto x : m) {
        if (x == uk::zero_exponent) return true;
    }
    return false;
}

// Everything observable of the container.
static void check(pbt::T &t, const state &s, const std::string &what)
{
    same(t, s.p, s.m, what);
    PBT_CHECK(t, s.p.size() == s.m.size() && s.p.empty() == s.m.empty(), what, ": size ", s.p.size());
    PBT_CHECK(t, s.p.get_s_size() == s.segs, what, ": segments ", s.p.get_s_size(), " expected ", s.segs);
    PBT_CHECK(t, s.p.get_symbol_set() == to_ss(s.mask), what, ": symbol set");
    PBT_CHECK(t, static_cast<std::size_t>(std::distance(s.p.begin(), s.p.end())) == s.m.size(), what, ": iteration");
    const bool single = s.m.empty() || (s.m.size() == 1u && s.m.begin()->first == mono{});
    PBT_CHECK(t, s.p.is_single_cf() == single, what, ": is_single_cf");
    std::size_t tot = 0;
    for (const auto &tab : s.p._get_s_table()) tot += tab.size();
    PBT_CHECK(t, tot == s.m.size() && s.p._get_s_table().size() == (std::size_t(1) << s.segs), what, ": tables");
}

static void step(pbt::T &t, state &s, state &o)
{
    const auto op = t.below(20);
    switch (op) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
        case 6: { // add a term, either sign, coefficient by copy, by move or from other arguments
            const auto e = gen_mono(t, s.mask);
            auto c = gen_cf<C>(t);
            const bool neg = t.below(2);
            const auto k = make_key<K>(e, s.mask);
            // Cancel an existing term from time to time.
            const auto it = s.m.find(e);
            if (it != s.m.end() && t.below(2)) c = neg ? it->second : -it->second;
            const auto form = t.below(4);
            if (form == 3) c = C(static_cast<int>(t.sym(9)));
            PBT_LOG(t, neg ? "sub " : "add ", c, " * ", show(e), " form ", form);
            auto go = [&](auto &&...args) {
                K k2(k);
                if (neg) {
                    if (t.below(2)) s.p.template add_term<false>(std::move(k2), std::forward<decltype(args)>(args)...);
                    else s.p.template add_term<false>(k, std::forward<decltype(args)>(args)...);
                } else {
                    if (t.below(2)) s.p.add_term(std::move(k2), std::forward<decltype(args)>(args)...);
                    else s.p.add_term(k, std::forward<decltype(args)>(args)...);
                }
            };
            if (form == 0) {
                go(std::as_const(c));
            } else if (form == 1) {
                go(C(c));
            } else if (form == 2) {
                if (czero(c)) go();
                else go(std::as_const(c));
            } else {
                go(static_cast<int>(c));
            }
            if (!zero_key(e)) add_to(s.m, e, neg ? C(-c) : c);
            break;
        }
        case 7: { // an incompatible key changes nothing
            K k;
            bool have = false;
#if VARIANT == 2 || VARIANT == 4
            const auto m2 = s.mask ^ (1u << t.below(NS)) ^ (t.below(2) ? 0x2au : 0u);
            k = make_key<K>(gen_mono(t, m2), m2);
            if (user) have = mask_size(m2) != mask_size(s.mask);
            else have = (mask_size(m2) + 2u) / 3u != (mask_size(s.mask) + 2u) / 3u;
#else
            if (s.mask == 0u) {
                k = K(static_cast<I>(1 + t.below(9)));
                have = true;
            } else if (mask_size(s.mask) > 1u) {
                // Beyond the last valid code.
                const auto lims = obake::detail::kpack_get_klims<I>(mask_size(s.mask));
                if (lims.second < std::numeric_limits<I>::max()) {
                    k = K(static_cast<I>(lims.second + 1));
                    have = true;
                }
            }
#endif
            if (have) {
                PBT_LOG(t, "incompatible key");
                t.label("incompatible key");
                PBT_THROWS(t, std::invalid_argument, s.p.add_term(k, C(1)), "incompatible key");
            }
            break;
        }
        case 8: { // set_symbol_set
            const auto m = gen_mask(t);
            PBT_LOG(t, "set_symbol_set ", m);
            if (s.m.empty()) {
                if (t.below(2)) s.p.set_symbol_set(to_ss(m));
                else s.p.set_symbol_set_fw(obake::detail::ss_fw(to_ss(m)));
                s.mask = m;
            } else {
                PBT_THROWS(t, std::invalid_argument, s.p.set_symbol_set(to_ss(m)), "set_symbol_set on a nonempty series");
                PBT_THROWS(t, std::invalid_argument, s.p.set_symbol_set_fw(obake::detail::ss_fw(to_ss(m))),
                           "set_symbol_set_fw on a nonempty series");
            }
            break;
        }
        case 9:
            PBT_LOG(t, "clear_terms");
            s.p.clear_terms();
            s.m.clear();
            break;
        case 10:
            if (t.below(2)) break;
            PBT_LOG(t, "clear");
            s.p.clear();
            s.m.clear();
            s.mask = 0;
            break;
        case 11: {
            const auto n = static_cast<unsigned>(t.below(6));
            PBT_LOG(t, "set_n_segments ", n);
            if (t.below(6) == 0) {
                PBT_THROWS(t, std::invalid_argument, s.p.set_n_segments(P::get_max_s_size() + 1u + n), "too many segments");
                break;
            }
            s.p.set_n_segments(n);
            s.segs = n;
            s.m.clear();
            break;
        }
        case 12:
            s.p.reserve(t.below(200));
            break;
        case 13: { // lookup
            const auto e = gen_mono(t, s.mask);
            const auto k = make_key<K>(e, s.mask);
            const auto it = s.m.find(e);
            const auto f = s.p.find(k);
            const auto cf = std::as_const(s.p).find(k);
            PBT_LOG(t, "find ", show(e));
            PBT_CHECK(t, (f == s.p.end()) == (it == s.m.end()) && (cf == s.p.cend()) == (it == s.m.end()), "find ", show(e));
            PBT_CHECK(t, cf == f, "const and mutable find");
            if (it != s.m.end()) {
                PBT_CHECK(t, f->first == k && f->second == it->second && cf->second == it->second, "find ", show(e));
                if (t.below(2)) {
                    // Change the coefficient through the iterator.
                    auto c = gen_cf<C>(t, true);
                    f->second = c;
                    it->second = c;
                }
            }
            break;
        }
        case 14: { // copies are independent
            PBT_LOG(t, "copy to the other");
            if (t.below(2)) {
                o.p = s.p;
            } else {
                P c(s.p);
                o.p = std::move(c);
            }
            o.m = s.m;
            o.mask = s.mask;
            o.segs = s.segs;
            break;
        }
        case 15: { // move away and back to life
            PBT_LOG(t, "move to the other, then assign");
            o.p = std::move(s.p);
            o.m = s.m;
            o.mask = s.mask;
            o.segs = s.segs;
            if (t.below(2)) {
                s.p = o.p;
            } else {
                s.p = P{};
                s.m.clear();
                s.mask = 0;
                s.segs = 0;
            }
            break;
        }
        case 16:
            PBT_LOG(t, "swap");
            if (t.below(2)) s.p.swap(o.p);
            else swap(s.p, o.p);
            std::swap(s.m, o.m);
            std::swap(s.mask, o.mask);
            std::swap(s.segs, o.segs);
            break;
        case 17: { // self-assignment and self-swap
            PBT_LOG(t, "self copy");
            auto &r = s.p;
            s.p = r;
            s.p.swap(r);
            break;
        }
        case 18: { // rebuild by iterating
            P r;
            r.set_symbol_set_fw(s.p.get_symbol_set_fw());
            const auto n = static_cast<unsigned>(t.below(5));
            r.set_n_segments(n);
            auto it = s.p.begin();
            typename P::const_iterator cit = it;
            for (; it != s.p.end(); ++it, cit++) {
                PBT_CHECK(t, cit == it && &*cit == &*it, "iterators disagree");
                r.add_term(it->first, it->second);
            }
            PBT_CHECK(t, cit == s.p.cend() && s.p.end() == s.p.cend(), "end iterators disagree");
            same(t, r, s.m, "rebuilt");
            PBT_CHECK(t, r == s.p || user, "rebuilt series compare different");
            break;
        }
        default: { // statistics
            const auto st = s.p.table_stats();
            std::ostringstream exp;
            exp << "Total number of terms             : " << s.m.size() << '\n'
                << "Total number of tables            : " << (std::size_t(1) << s.segs) << '\n';
            PBT_CHECK(t, st.compare(0, exp.str().size(), exp.str()) == 0, "table_stats: ", st);
            // The size in bytes: that of the empty series with as many segments, and that of the terms.
            P none;
            none.set_n_segments(s.segs);
            std::size_t bytes = obake::byte_size(none);
            PBT_CHECK(t, bytes >= sizeof(P), "byte_size");
            for (const auto &x : s.p) {
                bytes += obake::byte_size(x.first) + obake::byte_size(x.second) + (sizeof(x) - sizeof(x.first) - sizeof(x.second));
            }
            PBT_CHECK(t, obake::byte_size(s.p) == bytes, "byte_size ", obake::byte_size(s.p), " expected ", bytes);
            break;
        }
    }
}

PBT_SUB(history, 60000, 2000000,
        "histories of up to 60 operations (add or subtract terms in every form, incompatible keys, zero keys, clear, "
        "symbol sets, segments, reserve, lookup, changes through iterators, copies, moves, swaps) on two series, with "
        "every observable compared with a reference map after each; non-trivial: at least 8 operations and 3 terms alive "
        "at some point")
{
    state s[2];
    const auto n = 1u + t.below(t.scaled(60));
    std::size_t most = 0;
    s[0].mask = gen_mask(t);
    s[0].p.set_symbol_set(to_ss(s[0].mask));
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto w = t.below(4) == 3u ? 1 : 0;
        step(t, s[w], s[1 - w]);
        check(t, s[w], pbt::cat("after operation ", i));
        check(t, s[1 - w], pbt::cat("the other series, after operation ", i));
        most = std::max(most, s[w].m.size());
    }
    t.nontrivial(n >= 8u && most >= 3u);
}

PBT_SUB(many, 150, 6000,
        "series of thousands of terms added in a shuffled order with cancellations, under every segmentation, looked up "
        "and then removed one by one; non-trivial: always")
{
    const mask_t mask = 0x3b;
    state s;
    s.mask = mask;
    s.segs = static_cast<unsigned>(t.below(7));
    s.p.set_symbol_set(to_ss(mask));
    s.p.set_n_segments(s.segs);
    const auto n = 200u + t.below(3000);
    auto z = t.raw64() | 1u;
    auto next = [&] {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        return z;
    };
    const unsigned span = sg ? 7 : 4;
    for (std::uint64_t i = 0; i < n; ++i) {
        mono e{};
        for (unsigned j = 0; j < NS; ++j) {
            if (mask & (1u << j)) e[j] = static_cast<expo>(next() % span) - (sg ? 3 : 0);
        }
        const C c = C(static_cast<int>(next() % 3u) - 1);
        if (next() & 1u) {
            s.p.add_term(make_key<K>(e, mask), c);
            add_to(s.m, e, c);
        } else {
            s.p.template add_term<false>(make_key<K>(e, mask), c);
            add_to(s.m, e, C(-c));
        }
    }
    t.nontrivial();
    PBT_LOG(t, n, " insertions, ", s.m.size(), " terms, 2**", s.segs, " tables");
    check(t, s, "after the insertions");
    auto left = s.m;
    for (const auto &p : s.m) {
        if (next() % 4u == 0u) continue;
        s.p.template add_term<false>(make_key<K>(p.first, mask), p.second);
        left.erase(p.first);
        PBT_CHECK(t, s.p.find(make_key<K>(p.first, mask)) == s.p.end(), "a removed term is still there");
    }
    s.m = left;
    check(t, s, "after the removals");
}

// The hash of the user keys is too weak for this many.
#if VARIANT != 4
PBT_SUB(huge, 8, 400,
        "series of 15000 to 91125 terms in up to 4096 segments: every term, the sizes, removal of most terms; non-trivial: always")
{
    t.nontrivial();
    huge::container<P>(t);
}
#endif
