// U09: error reporting and the small generic helpers.
#include <pbt.hpp>

#include <array>
#include <cstring>
#include <future>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <obake/detail/fcast.hpp>
#include <obake/detail/ignore.hpp>
#include <obake/detail/make_array.hpp>
#include <obake/detail/priority_tag.hpp>
#include <obake/detail/tuple_for_each.hpp>
#include <obake/exceptions.hpp>
#include <obake/stack_trace.hpp>
#include <obake/type_name.hpp>

namespace u09_ns
{
// Exceptions of the user.
struct more : std::runtime_error {
    int code;
    more(const std::string &s, int c) : std::runtime_error(s), code(c) {}
};
struct token {
    int id = 0, copies = 0;
    bool gone = false;
    explicit token(int i) : id(i) {}
    token(const token &o) : id(o.id), copies(o.copies + 1) {}
    token(token &&o) noexcept : id(o.id), copies(o.copies)
    {
        o.gone = true;
    }
};
struct owner : std::runtime_error {
    token k;
    template <typename X>
    owner(std::string s, X &&x) : std::runtime_error(std::move(s)), k(std::forward<X>(x))
    {
    }
};
struct plain {
    token k;
    explicit plain(const token &x) : k(x) {}
    explicit plain(token &&x) : k(std::move(x)) {}
};
// Not made from a std::string: no decoration.
struct literal {
    const char *s;
    explicit literal(const char *x) : s(x) {}
};
struct number {
    long n;
    explicit number(int x) : n(x) {}
    number(int x, const char *) : n(-x) {}
};
struct none {
    int n = 7;
};
} // namespace u09_ns

namespace
{
using namespace u09_ns;

const std::string off = "<Stack trace generation has been disabled at runtime>";

std::string text(pbt::T &t)
{
    static const char *const parts[] = {"a", "", "the value ", "\n", "\nException message: ", "%s", "{}", "12", " ", "\t\"'",
                                        "\nException type   : ", "x is negative", "\xc3\xa9"};
    std::string r;
    const auto n = t.below(6);
    for (std::uint64_t i = 0; i < n; ++i) r += parts[t.below(std::size(parts))];
    if (t.below(10) == 0u) r.append(static_cast<std::size_t>(t.below(3000)), 'z');
    return r;
}

// Before anything has changed it.
const bool initially = obake::stack_trace_enabled();

struct tracing {
    bool before = obake::stack_trace_enabled();
    explicit tracing(bool b)
    {
        obake::set_stack_trace_enabled(b);
    }
    ~tracing()
    {
        obake::set_stack_trace_enabled(before);
    }
};

// One trace per line: "# <level> | <where> | <name>".
std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> r;
    if (s.empty()) return r;
    std::size_t b = 0;
    for (;;) {
        const auto e = s.find('\n', b);
        r.push_back(s.substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos) break;
        b = e + 1u;
    }
    return r;
}

void well_formed(pbt::T &t, const std::string &s)
{
    const auto lines = split(s);
    std::size_t level = lines.size(), bar1 = 0, bar2 = 0;
    for (const auto &l : lines) {
        --level;
        PBT_CHECK(t, l.compare(0, 2, "# ") == 0, "line ", l);
        const auto p = l.find(" | "), q = l.find(" | ", p + 1u);
        PBT_CHECK(t, p != std::string::npos && q != std::string::npos, "line ", l);
        if (!bar1) {
            bar1 = p;
            bar2 = q;
        }
        PBT_CHECK(t, p == bar1 && q == bar2, "the columns are not aligned: ", s);
        std::size_t i = 2;
        while (i < p && l[i] == ' ') ++i;
        PBT_CHECK(t, l.substr(i, p - i) == std::to_string(level), "level ", l.substr(i, p - i), " instead of ", level);
    }
}

[[gnu::noinline]] std::string deep(unsigned n, unsigned skip)
{
    if (n == 0u) {
        auto s = obake::stack_trace(skip);
        asm volatile("" ::: "memory");
        return s;
    }
    auto s = deep(n - 1u, skip);
    asm volatile("" ::: "memory");
    return s;
}

// The message part of a decorated exception: after the trace.
std::string expected_tail(const char *type, const std::string &desc)
{
    return std::string("\n\nException type   : ") + type + "\nException message: " + desc + "\n";
}

template <typename E, typename F>
void decorated(pbt::T &t, const std::string &desc, bool trace, F &&f)
{
    const std::string name = obake::type_name<E>();
    const auto want = expected_tail(name.c_str(), desc);
    bool thrown = false;
    try {
        f();
    } catch (const E &e) {
        thrown = true;
        PBT_CHECK(t, typeid(e) == typeid(E), "another exception");
        const std::string w = e.what();
        PBT_CHECK(t, w.size() >= want.size() && w.compare(w.size() - want.size(), want.size(), want) == 0, "message ", w,
                  ", expected at the end ", want);
        const auto head = w.substr(0, w.size() - want.size());
        if (trace) well_formed(t, head);
        else PBT_CHECK(t, head == off, "trace ", head);
    }
    PBT_CHECK(t, thrown);
}
} // namespace

PBT_SUB(decorated_errors, 20000, 500000,
        "errors raised with generated messages, as named and temporary strings, string views, arrays and pointers, with further "
        "arguments, with traces enabled or not: the exact type, the message with its type and text, the further arguments; "
        "types that cannot be decorated get their own arguments; non-trivial: a message of several lines")
{
    const bool trace = t.below(16) == 0u;
    tracing g(trace);
    const auto s = text(t);
    const auto copy = s;
    t.nontrivial(s.find('\n') != std::string::npos);
    switch (t.below(11)) {
        case 0:
            decorated<std::invalid_argument>(t, s, trace, [&] { obake_throw(std::invalid_argument, s); });
            break;
        case 1:
            decorated<std::overflow_error>(t, s, trace, [&] { obake_throw(std::overflow_error, std::string(s)); });
            break;
        case 2:
            decorated<std::domain_error>(t, s, trace, [&] { obake_throw(std::domain_error, s.c_str()); });
            break;
        case 3:
            decorated<std::runtime_error>(t, s, trace, [&] { obake_throw(std::runtime_error, std::string_view(s)); });
            break;
        case 4: {
            char buf[] = "an array";
            decorated<std::logic_error>(t, buf, trace, [&] { obake_throw(std::logic_error, buf); });
            decorated<std::logic_error>(t, "a literal", trace, [&] { obake_throw(std::logic_error, "a literal"); });
            break;
        }
        case 5: {
            const auto c = static_cast<int>(t.sym(1000));
            bool ok = false;
            decorated<more>(t, s, trace, [&] { obake_throw(more, s, c); });
            try {
                obake_throw(more, s, c);
            } catch (const more &e) {
                ok = e.code == c;
            }
            PBT_CHECK(t, ok);
            break;
        }
        case 6: {
            token k(static_cast<int>(t.below(100)));
            const bool mv = t.below(2);
            decorated<owner>(t, s, trace, [&] {
                try {
                    if (mv) obake_throw(owner, s, std::move(k));
                    else obake_throw(owner, s, k);
                } catch (const owner &e) {
                    PBT_CHECK(t, e.k.id == k.id && e.k.copies == (mv ? 0 : 1), "the argument was copied ", e.k.copies, " times");
                    throw;
                }
            });
            PBT_CHECK(t, k.gone == mv);
            break;
        }
        case 7:
            try {
                obake_throw(literal, "as it is");
            } catch (const literal &e) {
                PBT_CHECK(t, std::strcmp(e.s, "as it is") == 0);
            }
            break;
        case 8: {
            const auto n = static_cast<int>(t.sym(1000));
            try {
                obake_throw(number, n);
            } catch (const number &e) {
                PBT_CHECK(t, e.n == n);
            }
            try {
                obake_throw(number, n, "more");
            } catch (const number &e) {
                PBT_CHECK(t, e.n == -n);
            }
            break;
        }
        case 9: {
            token k(static_cast<int>(t.below(100)));
            const bool mv = t.below(2);
            try {
                if (mv) obake_throw(plain, std::move(k));
                else obake_throw(plain, k);
            } catch (const plain &e) {
                PBT_CHECK(t, e.k.id == k.id && e.k.copies == (mv ? 0 : 1) && k.gone == mv, "argument not handed on");
            }
            PBT_THROWS(t, std::bad_alloc, [] { obake_throw(std::bad_alloc, ); }());
            try {
                obake_throw(none, );
            } catch (const none &e) {
                PBT_CHECK(t, e.n == 7);
            }
            break;
        }
        default:
            // Errors within an expression keep their type.
            decorated<std::out_of_range>(t, s + "!", trace, [&] { obake_throw(std::out_of_range, s + "!"); });
    }
    PBT_CHECK(t, s == copy, "the message of the caller changed");
}

PBT_SUB(traces, 250, 6000,
        "stack traces from a generated depth, skipping a generated number of frames, from the main or another thread: one line "
        "per frame, numbered and aligned, as many more lines as the depth grows and as many fewer as frames are skipped; a fixed "
        "text when switched off, in all threads; non-trivial: frames skipped")
{
    const auto d1 = static_cast<unsigned>(t.below(20)), d2 = d1 + static_cast<unsigned>(t.below(110));
    const auto s1 = static_cast<unsigned>(t.below(8) ? t.below(12) : t.below(200));
    const bool other = t.below(2);
    std::string a, b, c, d;
    {
        tracing g(true);
        auto go = [&] {
            // One call site: the frames around are the same.
            std::string *const out[] = {&a, &b, &c, &d};
            const unsigned dep[] = {d1, d2, d1, 0u}, sk[] = {0u, 0u, s1, ~0u - static_cast<unsigned>(s1)};
            for (int i = 0; i < 4; ++i) {
                *out[i] = deep(dep[i], sk[i]);
                asm volatile("" ::: "memory");
            }
        };
        if (other) std::thread(go).join();
        else go();
    }
    PBT_CHECK(t, initially, "traces are off at the start of the program");
    well_formed(t, a);
    well_formed(t, b);
    well_formed(t, c);
    const auto na = split(a).size(), nb = split(b).size(), nc = split(c).size();
    PBT_CHECK(t, na > d1, na, " frames at depth ", d1);
    PBT_CHECK(t, nb == na + (d2 - d1), nb, " frames at depth ", d2, ", ", na, " at depth ", d1);
    PBT_CHECK(t, nc == (s1 > na ? 0u : na - s1), nc, " frames, skipping ", s1, " of ", na);
    PBT_CHECK(t, d.empty() || d.find("overflow") != std::string::npos, "a trace skipping everything: ", d);
    t.nontrivial(s1 > 0u && nc > 0u);
    {
        tracing g(false);
        PBT_CHECK(t, !obake::stack_trace_enabled());
        PBT_CHECK(t, deep(d1, s1) == off);
        std::string x;
        std::thread([&] { x = deep(d1, s1); }).join();
        PBT_CHECK(t, x == off, "in another thread");
        obake::set_stack_trace_enabled(true);
        PBT_CHECK(t, obake::stack_trace_enabled());
    }
}

namespace
{
struct probe {
    int id = 0;
    int *alive;
    explicit probe(int i, int *a) : id(i), alive(a)
    {
        ++*alive;
    }
    probe(const probe &o) : id(o.id), alive(o.alive)
    {
        ++*alive;
    }
    probe(probe &&o) noexcept : id(o.id), alive(o.alive)
    {
        o.id = -1;
        ++*alive;
    }
    ~probe()
    {
        --*alive;
    }
};
struct stop_here {
};
// Counts how it is called; the value category of an element is visible in the overload chosen.
struct visitor {
    std::vector<std::pair<const void *, int>> *seen;
    std::size_t stop;
    void note(const void *p, int c)
    {
        if (seen->size() == stop) throw stop_here{};
        seen->emplace_back(p, c);
    }
    template <typename X>
    std::size_t operator()(X &x)
    {
        note(&x, std::is_const_v<X> ? 1 : 0);
        return seen->size();
    }
    template <typename X, std::enable_if_t<!std::is_lvalue_reference_v<X>, int> = 0>
    std::size_t operator()(X &&x)
    {
        note(&x, std::is_const_v<X> ? 3 : 2);
        return seen->size();
    }
};

template <typename Tuple, std::size_t... I>
void walk(pbt::T &t, Tuple &tup, std::index_sequence<I...>)
{
    const void *const addr[] = {static_cast<const void *>(&std::get<I>(tup))..., nullptr};
    const auto n = sizeof...(I);
    std::vector<std::pair<const void *, int>> seen;
    const auto cat = static_cast<int>(t.below(4));
    visitor v{&seen, t.below(4) ? n + 1u : static_cast<std::size_t>(t.below(n + 1u))};
    const auto stop = v.stop;
    bool stopped = false;
    try {
        switch (cat) {
            case 0:
                obake::detail::tuple_for_each(tup, v);
                break;
            case 1:
                obake::detail::tuple_for_each(std::as_const(tup), v);
                break;
            case 2:
                obake::detail::tuple_for_each(std::move(tup), v);
                break;
            default:
                obake::detail::tuple_for_each(std::move(std::as_const(tup)), v);
        }
    } catch (const stop_here &) {
        stopped = true;
    }
    PBT_CHECK(t, stopped == (stop < n));
    PBT_CHECK(t, seen.size() == std::min(stop, n), seen.size(), " of ", n, " elements visited, stop at ", stop);
    for (std::size_t i = 0; i < seen.size(); ++i) {
        PBT_CHECK(t, seen[i].first == addr[i], "element ", i, " is not visited in its turn");
        PBT_CHECK(t, seen[i].second == cat, "element ", i, " passed as ", seen[i].second, " for a tuple passed as ", cat);
    }
    t.nontrivial(n > 1u);
}
template <typename... X>
void walk_tuple(pbt::T &t, X &&...x)
{
    std::tuple<X...> tup(std::forward<X>(x)...);
    walk(t, tup, std::index_sequence_for<X...>{});
}

template <std::size_t... I>
void arrays(pbt::T &t, int base, bool moved, std::index_sequence<I...>)
{
    constexpr auto n = sizeof...(I);
    int alive = 0;
    {
        probe p[] = {probe(base + static_cast<int>(I), &alive)...};
        if (moved) {
            auto a = obake::detail::make_array(std::move(p[I])...);
            PBT_CHECK(t, (std::is_same_v<decltype(a), std::array<probe, n>>), "type");
            for (std::size_t i = 0; i < n; ++i) {
                PBT_CHECK(t, a[i].id == base + static_cast<int>(i) && p[i].id == -1, "element ", i);
            }
            PBT_CHECK(t, alive == static_cast<int>(2u * n));
        } else {
            const auto a = obake::detail::make_array(p[I]...);
            for (std::size_t i = 0; i < n; ++i) {
                PBT_CHECK(t, a[i].id == base + static_cast<int>(i) && p[i].id == base + static_cast<int>(i), "element ", i);
            }
        }
    }
    PBT_CHECK(t, alive == 0, alive, " objects left");
    // One of the values cannot be made.
    const auto bad = static_cast<std::size_t>(t.below(n));
    auto make = [&](std::size_t i) -> probe {
        if (i == bad) throw stop_here{};
        return probe(static_cast<int>(i), &alive);
    };
    bool thrown = false;
    try {
        (void)obake::detail::make_array(make(I)...);
    } catch (const stop_here &) {
        thrown = true;
    }
    PBT_CHECK(t, thrown);
    PBT_CHECK(t, alive == 0, alive, " objects left after an exception");
    t.nontrivial(n > 1u);
}

template <std::size_t I>
std::size_t rank(obake::detail::priority_tag<I>)
{
    return I;
}
} // namespace

PBT_SUB(tuples_and_arrays, 40000, 1000000,
        "tuples of 0 to 6 elements of mixed types, passed in every value category, visited by a functor that may stop with an "
        "exception: every element once, in order, in the category of the tuple, and itself; arrays made from 1 to 6 copied or "
        "moved values, one of which may fail; non-trivial: at least two elements")
{
    const auto k = static_cast<int>(t.sym(1000));
    switch (t.below(8)) {
        case 0:
            walk_tuple(t);
            break;
        case 1:
            walk_tuple(t, int(k));
            break;
        case 2:
            walk_tuple(t, int(k), std::string("x"));
            break;
        case 3:
            walk_tuple(t, int(k), std::string("x"), std::make_unique<int>(k));
            break;
        case 4:
            walk_tuple(t, 1., int(k), int(k), int(k));
            break;
        case 5:
            walk_tuple(t, std::string("a"), std::string("b"), char('c'), 4l, 5.f, std::vector<int>{6});
            break;
        case 6: {
            const bool mv = t.below(2);
            switch (t.below(6)) {
                case 0:
                    arrays(t, k, mv, std::make_index_sequence<1>{});
                    break;
                case 1:
                    arrays(t, k, mv, std::make_index_sequence<2>{});
                    break;
                case 2:
                    arrays(t, k, mv, std::make_index_sequence<3>{});
                    break;
                case 3:
                    arrays(t, k, mv, std::make_index_sequence<4>{});
                    break;
                case 4:
                    arrays(t, k, mv, std::make_index_sequence<5>{});
                    break;
                default:
                    arrays(t, k, mv, std::make_index_sequence<6>{});
            }
            break;
        }
        default: {
            // The casts keep the object and only let through non-const temporaries.
            std::string s = "s";
            const std::string c = "c";
            using obake::detail::fcast;
            PBT_CHECK(t, (std::is_same_v<decltype(fcast(s)), const std::string &>), "type");
            PBT_CHECK(t, (std::is_same_v<decltype(fcast(c)), const std::string &>), "type");
            PBT_CHECK(t, (std::is_same_v<decltype(fcast(std::move(s))), std::string &&>), "type");
            PBT_CHECK(t, (std::is_same_v<decltype(fcast(std::move(c))), const std::string &>), "type");
            PBT_CHECK(t, noexcept(fcast(s)) && noexcept(fcast(std::move(s))));
            auto &&r = fcast(std::move(s));
            auto at = [](const std::string &x) { return &x; };
            PBT_CHECK(t, at(fcast(s)) == &s && at(fcast(c)) == &c && &r == &s && at(fcast(std::move(c))) == &c);
            obake::detail::ignore(s, c, k, nullptr);
            obake::detail::ignore();
            PBT_CHECK(t, s == "s" && c == "c");
            PBT_CHECK(t, rank<0>(obake::detail::priority_tag<3>{}) == 0u && rank<2>(obake::detail::priority_tag<2>{}) == 2u);
        }
    }
}
