// A stand-in for the parts of oneTBB that obake uses, in which the division of the work and the schedule are generated.
//
// Three ways of running the tasks of a parallel algorithm:
// - serial: in order, in the calling thread;
// - threads: each task in a thread of its own. The only ordering between two tasks is what the real library guarantees
//   (creation before start, end before the end of the wait), and the thread sanitizer sees it, so two tasks that touch the
//   same data are reported whatever the timing;
// - steal: everything in one thread, which while it waits for its own tasks runs any pending task, of any algorithm, that
//   the rules of isolation allow it to run: the schedules in which a waiting thread steals unrelated work.
// The ranges are always divided at generated points, and reductions are grouped at random.
#ifndef PBT_TBB_HPP
#define PBT_TBB_HPP

#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt_tbb
{

enum class mode { serial, threads, steal };

struct group {
    std::size_t pending;
    std::exception_ptr ep;
};
struct task {
    std::function<void()> fn;
    group *g;
    std::uint64_t iso;
};

struct config {
    mode m = mode::serial;
    unsigned max_chunks = 4;
    // steal: the pending tasks.
    std::vector<task> pool;
    // Statistics of the steal mode.
    std::uint64_t stolen = 0, next_iso = 1;
};
inline config cfg;

struct per_thread {
    std::uint64_t rng = 1, iso = 0;
    unsigned depth = 0;
};
inline thread_local per_thread self;

inline std::uint64_t rnd()
{
    std::uint64_t z = (self.rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::size_t below(std::size_t n)
{
    return static_cast<std::size_t>(rnd() % n);
}

inline void configure(mode m, std::uint64_t seed, unsigned max_chunks)
{
    cfg.m = m;
    cfg.max_chunks = max_chunks;
    cfg.pool.clear();
    cfg.stolen = 0;
    self = per_thread{};
    self.rng = seed * 2u + 1u;
}

// Run all the functions and wait for them.
inline void run(std::vector<std::function<void()>> &fs)
{
    std::exception_ptr ep;
    if (cfg.m == mode::threads && self.depth < 3u && fs.size() > 1u) {
        std::vector<std::exception_ptr> eps(fs.size());
        {
            std::vector<std::jthread> th;
            const auto mine = below(fs.size());
            for (std::size_t i = 0; i < fs.size(); ++i) {
                if (i == mine) continue;
                const auto seed = rnd();
                const auto d = self.depth + 1u;
                th.emplace_back([&fs, &eps, i, seed, d] {
                    self.rng = seed;
                    self.depth = d;
                    try {
                        fs[i]();
                    } catch (...) {
                        eps[i] = std::current_exception();
                    }
                });
            }
            try {
                fs[mine]();
            } catch (...) {
                eps[mine] = std::current_exception();
            }
        }
        for (const auto &e : eps) {
            if (e) std::rethrow_exception(e);
        }
    } else if (cfg.m == mode::steal && self.depth < 40u) {
        group g{fs.size(), nullptr};
        const auto iso = self.iso;
        for (auto &f : fs) cfg.pool.push_back(task{std::move(f), &g, iso});
        while (g.pending) {
            std::vector<std::size_t> ok;
            for (std::size_t i = 0; i < cfg.pool.size(); ++i) {
                if (iso == 0u || cfg.pool[i].iso == iso) ok.push_back(i);
            }
            const auto k = ok[below(ok.size())];
            auto tk = std::move(cfg.pool[k]);
            cfg.pool.erase(cfg.pool.begin() + static_cast<std::ptrdiff_t>(k));
            if (tk.g != &g) ++cfg.stolen;
            self.iso = tk.iso;
            ++self.depth;
            try {
                tk.fn();
            } catch (...) {
                if (!tk.g->ep) tk.g->ep = std::current_exception();
            }
            --self.depth;
            self.iso = iso;
            --tk.g->pending;
        }
        if (g.ep) std::rethrow_exception(g.ep);
    } else {
        for (auto &f : fs) {
            try {
                f();
            } catch (...) {
                if (!ep) ep = std::current_exception();
            }
        }
        if (ep) std::rethrow_exception(ep);
    }
}

// Generated division points of n items into non-empty pieces.
inline std::vector<std::size_t> cuts(std::size_t n)
{
    std::vector<std::size_t> c{0};
    if (n > 1u) {
        const auto k = 1u + below(std::min<std::size_t>(n, cfg.max_chunks));
        for (std::size_t i = 1; i < k; ++i) c.push_back(1u + below(n - 1u));
    }
    c.push_back(n);
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    return c;
}

} // namespace pbt_tbb

namespace tbb
{

struct split {
};
struct simple_partitioner {
};
struct auto_partitioner {
};
struct static_partitioner {
};
struct affinity_partitioner {
};

template <typename V>
class blocked_range
{
public:
    using const_iterator = V;
    using size_type = std::size_t;

    blocked_range(V b, V e, size_type g = 1) : m_b(b), m_e(e), m_g(g) {}
    V begin() const
    {
        return m_b;
    }
    V end() const
    {
        return m_e;
    }
    size_type size() const
    {
        return static_cast<size_type>(m_e - m_b);
    }
    size_type grainsize() const
    {
        return m_g;
    }
    bool empty() const
    {
        return !(m_b < m_e);
    }
    bool is_divisible() const
    {
        return m_g < size();
    }

private:
    V m_b, m_e;
    size_type m_g;
};

namespace pbt_detail
{
template <typename V>
V at(const V &b, std::size_t i)
{
    if constexpr (std::is_integral_v<V>) return static_cast<V>(b + static_cast<V>(i));
    else return b + static_cast<typename std::iterator_traits<V>::difference_type>(i);
}
} // namespace pbt_detail

template <typename V, typename F, typename... P>
void parallel_for(const blocked_range<V> &r, const F &f, P &&...)
{
    if (r.empty()) return;
    const auto c = pbt_tbb::cuts(r.size());
    std::vector<std::function<void()>> fs;
    for (std::size_t i = 0; i + 1u < c.size(); ++i) {
        fs.emplace_back([&f, &r, b = c[i], e = c[i + 1u]] {
            f(blocked_range<V>(pbt_detail::at(r.begin(), b), pbt_detail::at(r.begin(), e), r.grainsize()));
        });
    }
    pbt_tbb::run(fs);
}

template <typename I, typename F>
    requires(std::is_integral_v<I>)
void parallel_for(I first, I last, const F &f)
{
    parallel_for(blocked_range<I>(first, last), [&f](const blocked_range<I> &r) {
        for (auto i = r.begin(); i != r.end(); ++i) f(i);
    });
}

template <typename V, typename T, typename B, typename J, typename... P>
T parallel_reduce(const blocked_range<V> &r, const T &identity, const B &body, const J &join, P &&...)
{
    if (r.empty()) return body(r, identity);
    // The pieces that one body processes in a row, and then the joins, neighbours first.
    const auto c = pbt_tbb::cuts(r.size());
    std::vector<std::optional<T>> res(c.size() - 1u);
    std::vector<std::function<void()>> fs;
    for (std::size_t i = 0; i + 1u < c.size(); ++i) {
        const auto seed = pbt_tbb::rnd();
        fs.emplace_back([&, b = c[i], e = c[i + 1u], i, seed] {
            T v(identity);
            const auto n = e - b;
            const auto mid = (n > 1u && seed % 2u) ? b + 1u + (seed / 2u) % (n - 1u) : e;
            v = body(blocked_range<V>(pbt_detail::at(r.begin(), b), pbt_detail::at(r.begin(), mid)), std::move(v));
            if (mid != e) {
                v = body(blocked_range<V>(pbt_detail::at(r.begin(), mid), pbt_detail::at(r.begin(), e)), std::move(v));
            }
            res[i].emplace(std::move(v));
        });
    }
    pbt_tbb::run(fs);
    while (res.size() > 1u) {
        const auto i = pbt_tbb::below(res.size() - 1u);
        T v = join(std::move(*res[i]), std::move(*res[i + 1u]));
        res[i].emplace(std::move(v));
        res.erase(res.begin() + static_cast<std::ptrdiff_t>(i) + 1);
    }
    return std::move(*res[0]);
}
template <typename V, typename T, typename B, typename J, typename... P>
T parallel_deterministic_reduce(const blocked_range<V> &r, const T &identity, const B &body, const J &join, P &&...)
{
    return parallel_reduce(r, identity, body, join);
}

template <typename... F>
void parallel_invoke(const F &...f)
{
    std::vector<std::function<void()>> fs;
    (fs.emplace_back([&f] { f(); }), ...);
    pbt_tbb::run(fs);
}

template <typename It, typename C>
void parallel_sort(It b, It e, const C &cmp)
{
    const auto n = static_cast<std::size_t>(e - b);
    if (n < 2u) return;
    // The order of equivalent elements is unspecified.
    for (std::size_t i = n - 1u; i > 0u && i + 20u > n; --i) {
        std::iter_swap(pbt_detail::at(b, i), pbt_detail::at(b, pbt_tbb::below(i + 1u)));
    }
    const auto m = pbt_detail::at(b, pbt_tbb::below(n));
    std::vector<std::function<void()>> fs;
    fs.emplace_back([&] { std::sort(b, m, cmp); });
    fs.emplace_back([&] { std::sort(m, e, cmp); });
    pbt_tbb::run(fs);
    std::inplace_merge(b, m, e, cmp);
}
template <typename It>
void parallel_sort(It b, It e)
{
    parallel_sort(b, e, std::less<>{});
}

namespace this_task_arena
{
template <typename F>
auto isolate(F &&f) -> decltype(f())
{
    struct guard {
        std::uint64_t old = pbt_tbb::self.iso;
        ~guard()
        {
            pbt_tbb::self.iso = old;
        }
    } g;
    // Only the steal mode looks at this; other modes may isolate in several threads.
    pbt_tbb::self.iso = pbt_tbb::cfg.m == pbt_tbb::mode::steal ? pbt_tbb::cfg.next_iso++ : 1u;
    return f();
}
inline int max_concurrency()
{
    return static_cast<int>(pbt_tbb::cfg.max_chunks);
}
} // namespace this_task_arena

class task_arena
{
public:
    static constexpr int automatic = -1;
    explicit task_arena(int = automatic, unsigned = 1) {}
    template <typename F>
    auto execute(F &&f) -> decltype(f())
    {
        return this_task_arena::isolate(std::forward<F>(f));
    }
};

class global_control
{
public:
    enum parameter { max_allowed_parallelism, thread_stack_size };
    global_control(parameter, std::size_t) {}
};

} // namespace tbb

#endif
