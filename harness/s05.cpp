// S05: an operation that fails half-way (a coefficient operation throws, memory runs out) loses nothing but its result.
#if VARIANT == 6
// With the library's own assertions, which look at every series that is destroyed.
#undef NDEBUG
#endif
#include "ps_model.hpp"
#include "ukey.hpp"

#include <atomic>
#include <concepts>
#include <cstdlib>
#include <new>
#include <optional>
#include <vector>

#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/power_series/power_series.hpp>

namespace fault
{
// 0: nothing is counted; 1: coefficient operations; 2: allocations.
extern std::atomic<int> kind;
// The points left before the failure.
extern std::atomic<long> left;
extern std::atomic<bool> fired;
extern std::atomic<long> live;
// Allocations fail only on the thread of the check: oneTBB's own threads cannot deal with that.
extern thread_local bool here;
struct boom {
};
#if VARIANT == 1
std::atomic<int> kind{0};
std::atomic<long> left{0};
std::atomic<bool> fired{false};
std::atomic<long> live{0};
thread_local bool here = false;
#endif
inline bool due()
{
    if (left.fetch_sub(1) == 1) {
        fired = true;
        return true;
    }
    return false;
}
inline void point()
{
    if (kind.load() == 1 && due()) throw boom{};
}
} // namespace fault

#if VARIANT == 1
// Memory that runs out at the chosen allocation.
namespace
{
void *alloc(std::size_t n, std::size_t al, bool nothrow)
{
    // Who asks for memory that may be refused can do without.
    if (!nothrow && fault::here && fault::kind.load() == 2 && fault::due()) throw std::bad_alloc{};
    void *p = al > 16u ? std::aligned_alloc(al, (n + al - 1u) / al * al) : std::malloc(n ? n : 1u);
    if (p == nullptr && !nothrow) throw std::bad_alloc{};
    return p;
}
} // namespace
void *operator new(std::size_t n)
{
    return alloc(n, 1, false);
}
void *operator new[](std::size_t n)
{
    return alloc(n, 1, false);
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    return alloc(n, 1, true);
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    return alloc(n, 1, true);
}
void *operator new(std::size_t n, std::align_val_t a)
{
    return alloc(n, static_cast<std::size_t>(a), false);
}
void *operator new[](std::size_t n, std::align_val_t a)
{
    return alloc(n, static_cast<std::size_t>(a), false);
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept
{
    std::free(p);
}
#endif

// One type per variant.
#define fz PBT_CONCAT(fz_, VARIANT)
namespace fz_ns
{
#if VARIANT == 6
// Assertions ask in places which cannot fail.
static void query() {}
#else
static void query()
{
    fault::point();
}
#endif
// An integer (modulo 2**64) whose operations may throw.
struct fz {
    std::uint64_t v;
    fz() : v(0)
    {
        fault::point();
        ++fault::live;
    }
    explicit fz(long long n) : v(static_cast<std::uint64_t>(n))
    {
        fault::point();
        ++fault::live;
    }
    fz(const fz &o) : v(o.v)
    {
        fault::point();
        ++fault::live;
    }
    fz(fz &&o) noexcept : v(o.v)
    {
        o.v = 0xdead;
        ++fault::live;
    }
    fz &operator=(const fz &o)
    {
        fault::point();
        v = o.v;
        return *this;
    }
    fz &operator=(fz &&o) noexcept
    {
        v = o.v;
        return *this;
    }
    ~fz()
    {
        --fault::live;
    }
    // A failure may come before or after the value has changed.
    template <typename F>
    fz &change(F f)
    {
        fault::point();
        const auto n = f();
        const auto before = v;
        v = n;
        if (before != n) fault::point();
        return *this;
    }
    fz &operator+=(const fz &o)
    {
        return change([&] { return v + o.v; });
    }
    fz &operator-=(const fz &o)
    {
        return change([&] { return v - o.v; });
    }
    fz &operator*=(const fz &o)
    {
        return change([&] { return v * o.v; });
    }
    fz &operator/=(const fz &o)
    {
        return change([&] {
            if (o.v + 1u == 0u) return 0u - v;
            return static_cast<std::uint64_t>(static_cast<std::int64_t>(v) / static_cast<std::int64_t>(o.v));
        });
    }
    friend fz operator+(const fz &a, const fz &b)
    {
        fz r(a);
        r += b;
        return r;
    }
    friend fz operator-(const fz &a, const fz &b)
    {
        fz r(a);
        r -= b;
        return r;
    }
    friend fz operator*(const fz &a, const fz &b)
    {
        fz r(a);
        r *= b;
        return r;
    }
    friend fz operator/(const fz &a, const fz &b)
    {
        fz r(a);
        r /= b;
        return r;
    }
    friend fz operator-(const fz &a)
    {
        fz r;
        r -= a;
        return r;
    }
    friend bool operator==(const fz &a, const fz &b)
    {
        query();
        return a.v == b.v;
    }
    friend bool operator!=(const fz &a, const fz &b)
    {
        return !(a == b);
    }
    friend std::ostream &operator<<(std::ostream &os, const fz &a)
    {
        return os << static_cast<std::int64_t>(a.v);
    }
};
template <std::integral I>
fz operator*(const fz &a, I n)
{
    return a * fz(static_cast<long long>(n));
}
template <std::integral I>
fz operator*(I n, const fz &a)
{
    return a * fz(static_cast<long long>(n));
}
inline fz diff(const fz &, const std::string &)
{
    return fz(0);
}
inline void negate(fz &a)
{
    a.change([&] { return 0u - a.v; });
}
inline bool is_zero(const fz &a)
{
    query();
    return a.v == 0u;
}
inline fz pow(const fz &a, int n)
{
    fz r(1);
    for (int i = 0; i < n; ++i) r *= a;
    return r;
}
inline fz pow(const fz &a, unsigned n)
{
    return pow(a, static_cast<int>(n));
}
} // namespace fz_ns

using namespace pm;
using fz_ns::fz;
using obake::symbol_map;

#if VARIANT == 1 || VARIANT == 6
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, fz>;
#elif VARIANT == 2
using P = obake::polynomial<obake::d_packed_monomial<std::int32_t, 2>, fz>;
#elif VARIANT == 3
using P = obake::series<uk::ukey, fz, uk::utag>;
#elif VARIANT == 4
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, obake::polynomial<obake::packed_monomial<std::int64_t>, fz>>;
#elif VARIANT == 5
using P = obake::p_series<obake::packed_monomial<std::int32_t>, fz>;
#endif

namespace
{
using C = obake::series_cf_t<P>;
using K = obake::series_key_t<P>;
using M = model<C>;

// Keep one empty symbol set in the store, whose creation would need memory.
const P keep_empty{};
// Let oneTBB start before its first use is observed.
const pbt::reg_init start([] {
    fault::here = true;
    std::atomic<int> n{0};
    tbb::parallel_for(tbb::blocked_range<int>(0, 1000, 1), [&](const auto &r) { n += r.begin(); });
    P p;
    p.set_n_segments(3);
});

struct state {
    P a, b, x;
    M ma, mb, mx;
    mask_t mask = 0;
    C sc{};
    fz dv;
    int n = 0;
    unsigned sel = 0;
};

// The operations that give a new object from named, const operands.
constexpr unsigned n_const = 24;
std::optional<P> run_const(const state &s, unsigned op)
{
    const P &a = s.a, &b = s.b;
    switch (op) {
        case 0:
            return a + b;
        case 1:
            return a - b;
        case 2:
            return -a;
        case 3:
            return a * s.sc;
        case 4:
            return s.sc * a;
        case 5:
            return a / s.dv;
        case 6:
            return a + s.sc;
        case 7:
            return s.sc - a;
        case 8:
            return P(a);
        case 9:
            return obake::filtered(a, [](const auto &p) { return p.second != C(1); });
        case 10:
            return obake::add_symbols(a, to_ss(s.mask));
        case 11:
            return a - P(s.b);
        case 12:
            return P(s.a) + b;
        case 13:
            return P(s.a) - P(s.b);
        case 14:
            return P(s.sc);
        case 15: // the result of a comparison
            return P((a == b) ? C(1) : C(2));
        default:
            break;
    }
#if VARIANT != 3
    {
        switch (op) {
            case 16:
            case 17:
                return a * b;
            case 18:
                return obake::pow(a, s.n);
            case 19:
                return obake::trim(a);
#if VARIANT != 4
            case 20:
                return obake::diff(a, names[s.sel % NS]);
#endif
            case 21:
                return obake::subs(a, symbol_map<C>{{names[s.sel % NS], s.sc}});
            case 22:
#if VARIANT == 4 || VARIANT == 5
                return P(a);
#else
                return obake::polynomials::truncated_mul(a, b, s.n);
#endif
            case 23:
                return obake::subs(a, symbol_map<P>{{names[s.sel % NS], b}});
        }
    }
#endif
    return {};
}

// The operations on x.
constexpr unsigned n_inplace = 20;
bool run_inplace(state &s, unsigned op)
{
    P &x = s.x;
    const P &a = s.a;
    switch (op) {
        case 0:
            x += a;
            return true;
        case 1:
            x -= a;
            return true;
        case 2:
            x += s.sc;
            return true;
        case 3:
            x -= s.sc;
            return true;
        case 4:
            x *= s.sc;
            return true;
        case 5:
            x /= s.dv;
            return true;
        case 6:
            x = a;
            return true;
        case 7:
            obake::negate(x);
            return true;
        case 8:
            x += x;
            return true;
        case 9:
            x -= x;
            return true;
        case 10:
            x += P(a);
            return true;
        case 11:
            obake::filter(x, [](const auto &p) { return p.second != C(1); });
            return true;
        case 12: {
            mono m{};
            for (unsigned i = 0; i < NS; ++i) m[i] = (s.sel >> i) & 1u;
            x.add_term(make_key<K>(m, ss_mask(x.get_symbol_set())), s.sc);
            return true;
        }
        case 13: {
            mono m{};
            for (unsigned i = 0; i < NS; ++i) m[i] = (s.sel >> i) & 1u;
            x.template add_term<false>(make_key<K>(m, ss_mask(x.get_symbol_set())), s.sc);
            return true;
        }
        case 14:
            x = s.sc;
            return true;
        default:
            break;
    }
#if VARIANT != 3
    {
        switch (op) {
            case 15:
                x *= a;
                return true;
#if VARIANT != 4
            case 16:
#if VARIANT == 5
                obake::set_truncation(x, s.n);
#else
                obake::truncate_degree(x, s.n);
#endif
                return true;
            case 17:
#if VARIANT == 5
                obake::set_truncation(x, s.n, to_ss(s.mask));
#else
                obake::truncate_p_degree(x, s.n, to_ss(s.mask));
#endif
                return true;
#endif
            case 18:
                x *= x;
                return true;
            case 19:
#if VARIANT == 5
                obake::truncate(x);
#else
                x *= P(a);
#endif
                return true;
        }
    }
#endif
    return false;
}

bool same_tag(const P &p, const P &q)
{
#if VARIANT == 5
    return obake::get_truncation(p).index() == obake::get_truncation(q).index();
#else
    return &p != &q;
#endif
}

void refresh()
{
    obake::customisation::internal::clear_series_pow_map();
}

// Runs f with a failure at point k of the given kind; whether it failed.
template <typename F>
bool failing(pbt::T &t, int kind, long k, F &&f)
{
    fault::fired = false;
    fault::left = k;
    fault::kind = kind;
    bool thrown = false;
    std::string other;
    try {
        f();
    } catch (const fault::boom &) {
        thrown = kind == 1;
        if (!thrown) other = "an exception of the coefficients";
    } catch (const std::bad_alloc &) {
        thrown = kind == 2;
        if (!thrown) other = "bad_alloc";
    } catch (const std::exception &e) {
        fault::kind = 0;
        other = e.what();
    }
    fault::kind = 0;
    if (!other.empty()) t.fail("instead of the failure that was injected: " + other);
    PBT_CHECK(t, thrown == fault::fired.load(), "a failure at point ", k, " of kind ", kind, " was ",
              thrown ? "invented" : "swallowed");
    return thrown;
}
template <typename F>
long count_points(int kind, F &&f)
{
    constexpr long big = 1000000000;
    fault::fired = false;
    fault::left = big;
    fault::kind = kind;
    try {
        f();
    } catch (...) {
        fault::kind = 0;
        throw;
    }
    fault::kind = 0;
    return big - fault::left.load();
}

// The points to try.
std::vector<long> points(pbt::T &t, long n, long all, unsigned some)
{
    std::vector<long> r;
    if (n <= all) {
        for (long i = 1; i <= n; ++i) r.push_back(i);
    } else {
        for (unsigned i = 0; i < some; ++i) r.push_back(1 + static_cast<long>(t.below(static_cast<std::uint64_t>(n))));
        r.push_back(n);
    }
    return r;
}

void usable(pbt::T &t, P &p, const state &s, const char *what)
{
    // Whatever it holds is a proper series, which can be worked with.
    const auto m = to_model(p);
#if VARIANT == 5
    obake::truncate(p);
    same(t, p, m, what);
    obake::unset_truncation(p);
    P free_b(s.b);
    obake::unset_truncation(free_b);
    p += free_b;
#else
    p += s.b;
#endif
    same(t, p, add(m, s.mb), what);
    p = s.a;
    same(t, p, s.ma, what);
    p.clear();
    same(t, p, M{}, what);
    PBT_CHECK(t, p.get_symbol_set().empty(), what);
}

// An operand from which coefficients may have been taken: gone as a whole, emptied, or as it was.
void handed_over(pbt::T &t, const P &p, const M &m)
{
    if (p._get_s_table().empty() || p.empty()) return;
    same(t, p, m, "an operand that was handed over");
}

state gen_state(pbt::T &t, std::size_t nmax)
{
    state s;
    const auto m1 = gen_mask(t), m2 = t.below(3) ? gen_mask(t) : m1, m3 = t.below(2) ? gen_mask(t) : m1;
    auto g = [&](mask_t m) { return gen_poly<P>(t, m, 1u + t.scaled(nmax), erange{0, 2}); };
    auto ga = g(m1), gb = g(m2), gx = g(m3);
    // Cancellations: in sums, and in products.
    const auto shape = t.below(4);
    if (m1 == m2 && shape == 1u) {
        gb.p += ga.p;
        gb.m = add(gb.m, ga.m);
    } else if (shape == 2u) {
        gb.m = ga.m;
        for (auto &p : gb.m) {
            if (tdeg(p.first) % 2) p.second = C(0) - p.second;
        }
        gb.p = build<P>(gb.m, m1);
    }
    s.a = std::move(ga.p);
    s.b = std::move(gb.p);
    s.x = std::move(gx.p);
    s.ma = ga.m;
    s.mb = gb.m;
    s.mx = gx.m;
    s.mask = gen_mask(t);
    s.sc = gen_cf<C>(t, true);
    s.dv = gen_cf<fz>(t, true);
#if VARIANT != 4
    if (shape == 3u) {
        // Divisors of zero.
        s.sc = fz(2);
        const auto h = static_cast<fz>(std::numeric_limits<long long>::min());
        for (auto *g3 : {&ga, &gx}) {
            for (auto &p : g3->m) {
                if (t.below(2)) p.second = h;
            }
            g3->p = build<P>(g3->m, g3->mask, static_cast<unsigned>(t.below(3)));
        }
        s.a = ga.p;
        s.x = gx.p;
        s.ma = ga.m;
        s.mx = gx.m;
    }
#endif
#if VARIANT == 5
    if (t.below(2)) {
        // One truncation for all.
        const int d = static_cast<int>(t.below(5));
        const bool partial = t.below(2);
        const auto pmask = gen_mask(t);
        auto set = [&](P &q, M &m) {
            if (partial) obake::set_truncation(q, d, to_ss(pmask));
            else obake::set_truncation(q, d);
            for (auto it = m.begin(); it != m.end();) it = tdeg(it->first, partial ? pmask : ~0u) > d ? m.erase(it) : std::next(it);
        };
        set(s.a, s.ma);
        set(s.b, s.mb);
        set(s.x, s.mx);
    }
#endif
    s.n = static_cast<int>(t.below(4));
    s.sel = static_cast<unsigned>(t.below(64));
    return s;
}
} // namespace

PBT_SUB(named_operands, 32000, 1440000,
        "an operation on const operands is repeated with a failure at each point (each operation of a coefficient, then each "
        "allocation; a sample when there are many): the failure propagates, the operands are unchanged, no coefficient is "
        "leaked, and the operation then succeeds with its ordinary result; non-trivial: the failure came after the first point")
{
    const auto base_live = [] {
        refresh();
        return fault::live.load();
    }();
    {
        const auto s = gen_state(t, 8);
        const auto op = static_cast<unsigned>(t.below(n_const));
        PBT_LOG(t, "op ", op, " on ", show(s.ma), " and ", show(s.mb));
        std::optional<P> want = run_const(s, op);
        if (!want) return;
        const auto mw = to_model(*want);
        const auto before = fault::live.load();
        for (int kind = 1; kind <= 2; ++kind) {
            refresh();
            const auto n = count_points(kind, [&] { run_const(s, op); });
            for (const auto k : points(t, n, 30, 12)) {
                refresh();
                const auto l0 = fault::live.load();
                const bool failed = failing(t, kind, k, [&] {
                    const auto r = run_const(s, op);
                    const auto kd = fault::kind.exchange(0);
                    same(t, *r, mw, "the result without a failure");
                    fault::kind = kd;
                });
                if (failed && k > 1) t.nontrivial();
                same(t, s.a, s.ma, "first operand after a failure");
                same(t, s.b, s.mb, "second operand after a failure");
                if (failed) {
                    const auto again = run_const(s, op);
                    same(t, *again, mw, "the operation after it failed");
                    PBT_CHECK(t, same_tag(*again, *want));
                }
                refresh();
                PBT_CHECK(t, fault::live.load() <= l0, "leaked ", fault::live.load() - l0, " coefficients at point ", k, " of ", n);
            }
        }
        refresh();
        PBT_CHECK(t, fault::live.load() <= before);
    }
    refresh();
    PBT_CHECK(t, fault::live.load() == base_live, "coefficients leaked: ", fault::live.load() - base_live);
}

PBT_SUB(changed_operands, 32000, 1440000,
        "an operation in place is repeated with a failure at each point: the failure propagates, the other operand is unchanged, "
        "and what is left of the target is a proper series (no zero, duplicate or lost terms) that can be added to, assigned and "
        "cleared; nothing is leaked; non-trivial: the failure came after the first point")
{
    refresh();
    const auto base_live = fault::live.load();
    {
        const auto base = gen_state(t, 8);
        const auto op = static_cast<unsigned>(t.below(n_inplace));
        PBT_LOG(t, "op ", op, " on ", show(base.mx), " with ", show(base.ma));
        state s0(base);
        if (!run_inplace(s0, op)) return;
        const auto want = to_model(s0.x);
        for (int kind = 1; kind <= 2; ++kind) {
            state s1(base);
            const auto n = count_points(kind, [&] { run_inplace(s1, op); });
            for (const auto k : points(t, n, 30, 12)) {
                const auto l0 = fault::live.load();
                {
                    state s(base);
                    const bool failed = failing(t, kind, k, [&] { run_inplace(s, op); });
                    if (failed && k > 1) t.nontrivial();
                    if (!failed) same(t, s.x, want, "the result without a failure");
                    same(t, s.a, s.ma, "the other operand after a failure");
                    usable(t, s.x, base, "the target after a failure");
                    if (failed) {
                        s.x = base.x;
                        run_inplace(s, op);
                        same(t, s.x, want, "the operation after it failed");
                    }
                }
                PBT_CHECK(t, fault::live.load() == l0, "leaked ", fault::live.load() - l0, " coefficients at point ", k, " of ", n);
            }
        }
    }
    refresh();
    PBT_CHECK(t, fault::live.load() == base_live, "coefficients leaked: ", fault::live.load() - base_live);
}

PBT_SUB(moved_operands, 24000, 960000,
        "a sum, difference, assignment or product that may take over its operands is repeated with a failure at each point: the "
        "failure propagates, and the operands handed over are emptied or unchanged and can be assigned and used; nothing is leaked; non-trivial: the "
        "failure came after the first point")
{
    refresh();
    const auto base_live = fault::live.load();
    {
        const auto base = gen_state(t, 8);
        const auto op = t.below(9);
        auto run = [&](state &s) -> P {
            switch (op) {
                case 0:
                    return std::move(s.x) + s.a;
                case 1:
                    return s.a - std::move(s.x);
                case 2:
                    return std::move(s.x) + std::move(s.a);
                case 3:
                    s.a += std::move(s.x);
                    return s.a;
                case 4:
                    s.a -= std::move(s.x);
                    return s.a;
                case 5:
                    return -std::move(s.x);
                case 6:
                    return std::move(s.x) * s.sc;
                case 7:
                    return std::move(s.x) / s.dv;
                default:
                    return obake::add_symbols(std::move(s.x), to_ss(s.mask));
            }
        };
        state s0(base);
        const auto want = to_model(run(s0));
        PBT_LOG(t, "op ", op, " on ", show(base.mx), " and ", show(base.ma));
        for (int kind = 1; kind <= 2; ++kind) {
            state s1(base);
            const auto n = count_points(kind, [&] { run(s1); });
            for (const auto k : points(t, n, 30, 12)) {
                const auto l0 = fault::live.load();
                {
                    state s(base);
                    std::optional<P> r;
                    const bool failed = failing(t, kind, k, [&] { r = run(s); });
                    if (failed && k > 1) t.nontrivial();
                    if (!failed) same(t, *r, want, "the result without a failure");
                    if (op == 0u || op == 1u) same(t, s.a, s.ma, "the named operand after a failure");
                    if (op < 5u || op == 8u) handed_over(t, s.x, s.mx);
                    if (op == 2u) handed_over(t, s.a, s.ma);
                    if (op == 3u || op == 4u) usable(t, s.a, base, "the target after a failure");
                    s.x = base.x;
                    s.a = base.a;
                    same(t, s.x, s.mx, "an operand given a new value");
                    same(t, run(s), want, "the operation after it failed");
                }
                PBT_CHECK(t, fault::live.load() == l0, "leaked ", fault::live.load() - l0, " coefficients at point ", k, " of ", n);
            }
        }
    }
    refresh();
    PBT_CHECK(t, fault::live.load() == base_live, "coefficients leaked: ", fault::live.load() - base_live);
}

#if VARIANT <= 2 || VARIANT == 6
PBT_RACY_SUB(parallel_products, 30, 1500,
             "products and truncated products of a thousand and more terms, done by several threads, with a failure of a "
             "coefficient at generated points: the failure propagates out of the parallel algorithm, the operands are unchanged, "
             "nothing is leaked and the product then succeeds; non-trivial: the failure happened")
{
    refresh();
    const auto base_live = fault::live.load();
    {
        const auto w = 30 + static_cast<int>(t.below(40));
        const bool alternate = t.below(2);
        auto big = [&](bool alt) {
            P p;
            p.set_symbol_set(obake::symbol_set{"x", "y"});
            p.set_n_segments(static_cast<unsigned>(t.below(4)));
            const auto n = 1900 + static_cast<int>(t.below(300));
            const auto seed = t.below(1000);
            for (int i = 0; i < n; ++i) {
                using I = typename key_traits<K>::int_t;
                const I e[] = {static_cast<I>(i % w), static_cast<I>(i / w)};
                const auto c = 1 + static_cast<long long>((seed + static_cast<unsigned>(i) * 7919u) % 1000u);
                p.add_term(K(e, e + 2), alternate ? fz(alt && i % 2 ? -1 : 1) : fz(c));
            }
            return p;
        };
        const P a = big(false), b = big(true);
        const P a0(a), b0(b);
        const auto lim = static_cast<int>(t.below(150));
        const bool tr = t.below(3) == 0u;
        auto run = [&]() -> P {
            if (tr) return obake::polynomials::truncated_mul(a, b, lim);
            return a * b;
        };
        const P want = run();
        const auto n = count_points(1, run);
        const auto trials = 1u + t.below(3);
        for (std::uint64_t i = 0; i < trials; ++i) {
            const auto k = 1 + static_cast<long>(t.below(2) ? t.below(static_cast<std::uint64_t>(n))
                                                          : t.below(static_cast<std::uint64_t>(n) / 50u + 1u));
            const auto l0 = fault::live.load();
            const bool failed = failing(t, 1, k, [&] {
                const auto r = run();
                fault::kind = 0;
                PBT_CHECK(t, r == want, "the result without a failure");
            });
            t.nontrivial(failed);
            PBT_CHECK(t, fault::live.load() == l0, "leaked ", fault::live.load() - l0, " coefficients at point ", k, " of ", n);
            PBT_CHECK(t, a == a0 && b == b0, "an operand changed");
        }
        PBT_CHECK(t, run() == want, "the product after it failed");
    }
    PBT_CHECK(t, fault::live.load() == base_live, "coefficients leaked: ", fault::live.load() - base_live);
}
#endif
