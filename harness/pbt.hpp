// A small property-based testing core: choice-sequence generators with integrated shrinking,
// forked workers (a crash in the code under test is a finding, not the end of the run), replay
// files, and evidence counters. See DESIGN.md, "The harness".
#ifndef PBT_HPP
#define PBT_HPP

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt
{

// Thrown when an oracle disagrees. Deliberately not a std::exception.
struct failure {
    std::string msg;
};

// One generated case: the source of every random choice, and the sink of what is measured.
class T
{
public:
    // A choice in [0, n), n >= 1. Smaller means simpler.
    std::uint64_t below(std::uint64_t n);
    // A value in [lo, hi], simplest = lo.
    template <typename I>
    I range(I lo, I hi)
    {
        using U = std::make_unsigned_t<I>;
        const auto span = static_cast<std::uint64_t>(static_cast<U>(static_cast<U>(hi) - static_cast<U>(lo)));
        const std::uint64_t v
            = span == std::numeric_limits<std::uint64_t>::max() ? raw64() : below(span + 1u);
        return static_cast<I>(static_cast<U>(static_cast<U>(lo) + static_cast<U>(v)));
    }
    // A value in [-m, m], simplest = 0.
    std::int64_t sym(std::int64_t m)
    {
        const auto v = static_cast<std::int64_t>(below(static_cast<std::uint64_t>(2 * m) + 1u));
        return (v & 1) ? (v + 1) / 2 : -(v / 2);
    }
    std::uint64_t raw64()
    {
        const std::uint64_t hi = below(std::uint64_t(1) << 32);
        return (hi << 32) | below(std::uint64_t(1) << 32);
    }
    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }
    template <typename C>
    auto &pick(C &c)
    {
        return c[static_cast<std::size_t>(below(c.size()))];
    }
    template <typename U>
    U pick(std::initializer_list<U> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // An integer of type I, biased towards the edges of its range.
    template <typename I>
    I edgy();

    // Size hint in [0, 100].
    unsigned size = 0;
    // n scaled by the size hint, at least 1.
    std::size_t scaled(std::size_t n) const
    {
        const auto r = n * (size + 1u) / 101u;
        return r ? r : 1u;
    }

    void nontrivial(bool b = true)
    {
        m_nontrivial = m_nontrivial || b;
    }
    void label(const char *);
    void label(const std::string &s)
    {
        label(s.c_str());
    }
    bool verbose = false;
    std::ostringstream log;
    [[noreturn]] void fail(const std::string &msg)
    {
        throw failure{msg};
    }

    // Internals of the runner.
    bool m_nontrivial = false;
    bool m_replay = false;
    std::vector<std::uint64_t> m_in;
    std::size_t m_pos = 0;
    std::uint64_t m_rng = 0;
    std::vector<std::string> m_labels;
};

namespace detail
{
template <typename I>
struct uns {
    using type = std::make_unsigned_t<I>;
};
template <>
struct uns<__int128_t> {
    using type = __uint128_t;
};
template <>
struct uns<__uint128_t> {
    using type = __uint128_t;
};
} // namespace detail

template <typename I>
I T::edgy()
{
    using U = typename detail::uns<I>::type;
    constexpr unsigned bits = sizeof(I) * 8u;
    constexpr bool sg = static_cast<I>(-1) < static_cast<I>(0);
    const U mx = sg ? static_cast<U>(static_cast<U>(-1) >> 1) : static_cast<U>(-1);
    const U mn = sg ? static_cast<U>(mx + 1u) : U(0);
    auto rnd = [&](unsigned nbits) {
        U r = 0;
        for (unsigned got = 0; got < nbits; got += 32u) {
            r = static_cast<U>(static_cast<__uint128_t>(r) << 32)
                | static_cast<U>(below(std::uint64_t(1) << 32));
        }
        if (nbits < bits) r = static_cast<U>(r & static_cast<U>((U(1) << nbits) - 1u));
        return r;
    };
    U v = 0;
    switch (below(6)) {
        case 0:
            return static_cast<I>(sg ? sym(12) : static_cast<std::int64_t>(below(25)));
        case 1: // near the maximum
            v = static_cast<U>(mx - static_cast<U>(below(4)));
            break;
        case 2: // near the minimum
            v = static_cast<U>(mn + static_cast<U>(below(4)));
            break;
        case 3: { // near a power of two
            v = static_cast<U>(U(1) << below(bits));
            v = static_cast<U>(v + static_cast<U>(sym(2)));
            if (sg && below(2)) v = static_cast<U>(-v);
            break;
        }
        case 4: { // any bit length
            v = rnd(1u + static_cast<unsigned>(below(bits)));
            if (sg && below(2)) v = static_cast<U>(-v);
            break;
        }
        default: // uniform
            v = rnd(bits);
    }
    return static_cast<I>(v);
}

struct sub {
    const char *name;
    std::uint64_t quick_cases;
    std::uint64_t thorough_cases;
    void (*fn)(T &);
    // Outcomes may depend on the thread schedule: a replay is repeated.
    bool racy;
    // What the cases are and what makes one non-trivial.
    const char *rule;
};

struct reg {
    reg(const sub &);
};

// Called once in every worker process, before its first case.
struct reg_init {
    explicit reg_init(void (*)());
};

// What std::thread::hardware_concurrency() answers (8 unless a check changes it).
extern std::atomic<unsigned> hardware_threads;

template <typename... Args>
inline std::string cat(const Args &...args)
{
    std::ostringstream oss;
    (oss << ... << args);
    return oss.str();
}

} // namespace pbt

#define PBT_CONCAT_(a, b) a##b
#define PBT_CONCAT(a, b) PBT_CONCAT_(a, b)

// PBT_SUB(name, quick cases, thorough cases, rule) { body using t }
// In a translation unit compiled with -DVARIANT=v, the name becomes name_v.
#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
#define PBT_SUB_(nm, quick, thorough, racy, rule)                                                                      \
    static void PBT_CONCAT(pbt_fn_, nm)(::pbt::T &);                                                                   \
    static const ::pbt::reg PBT_CONCAT(                                                                                \
        pbt_reg_, nm)(::pbt::sub{PBT_STR(nm), quick, thorough, &PBT_CONCAT(pbt_fn_, nm), racy, rule});                 \
    static void PBT_CONCAT(pbt_fn_, nm)([[maybe_unused]] ::pbt::T & t)
#if defined(VARIANT)
#define PBT_VNAME(nm) PBT_CONCAT(nm##_, VARIANT)
#else
#define PBT_VNAME(nm) nm
#endif
#define PBT_SUB(nm, quick, thorough, rule) PBT_SUB_(PBT_VNAME(nm), quick, thorough, false, rule)
#define PBT_RACY_SUB(nm, quick, thorough, rule) PBT_SUB_(PBT_VNAME(nm), quick, thorough, true, rule)

// The oracle: PBT_CHECK(t, condition, message parts...)
#define PBT_CHECK(t, cond, ...)                                                                                        \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            (t).fail(::pbt::cat(__FILE__, ":", __LINE__, ": ", #cond, "  ", ##__VA_ARGS__));                           \
        }                                                                                                              \
    } while (false)

// The expression must throw exactly this kind of exception.
#define PBT_THROWS(t, exc, expr, ...)                                                                                  \
    do {                                                                                                               \
        bool pbt_thrown = false;                                                                                       \
        try {                                                                                                          \
            (void)(expr);                                                                                              \
        } catch (const exc &) {                                                                                        \
            pbt_thrown = true;                                                                                         \
        } catch (const ::std::exception &pbt_e) {                                                                      \
            (t).fail(::pbt::cat(__FILE__, ":", __LINE__, ": wrong exception from ", #expr, " (expected ", #exc, "): ", \
                                pbt_e.what(), "  ", ##__VA_ARGS__));                                                   \
        }                                                                                                              \
        if (!pbt_thrown) {                                                                                             \
            (t).fail(::pbt::cat(__FILE__, ":", __LINE__, ": no ", #exc, " from ", #expr, "  ", ##__VA_ARGS__));        \
        }                                                                                                              \
    } while (false)

#define PBT_LOG(t, ...)                                                                                                \
    do {                                                                                                               \
        if ((t).verbose) (t).log << ::pbt::cat(__VA_ARGS__) << '\n';                                                   \
    } while (false)

#endif
