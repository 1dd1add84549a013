// C03: the primitives that the parallel algorithms and the process-wide stores rest on.
#include <pbt.hpp>

#include <array>
#include <barrier>
#include <chrono>
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

#include <obake/detail/atomic_flag_array.hpp>
#include <obake/detail/atomic_lock_guard.hpp>
#include <obake/detail/fw_utils.hpp>
#include <obake/detail/hc.hpp>

namespace
{
namespace od = obake::detail;

struct step {
    unsigned lock;
    std::uint32_t amount;
    bool leave_by_exception;
    unsigned spin;
};
struct odd_exit {
};

struct account {
    // Deliberately not atomic: only the lock protects it.
    std::uint64_t sum = 0;
    std::uint64_t visits = 0;
    bool inside = false;
};
} // namespace

PBT_RACY_SUB(lock_excludes, 400, 12000,
             "2 to 6 threads with generated lists of critical sections on 1 to 4 locks of a flag array, some left by an "
             "exception; inside, unprotected accounts are updated: exclusion, visibility (thread sanitizer), and all locks free "
             "at the end; non-trivial: two threads use the same lock")
{
    const auto nl = 1u + static_cast<unsigned>(t.below(4)), nt = 2u + static_cast<unsigned>(t.below(5));
    std::vector<std::vector<step>> work(nt);
    std::vector<std::set<unsigned>> users(nl);
    std::vector<account> expd(nl), acc(nl);
    for (unsigned i = 0; i < nt; ++i) {
        const auto n = t.below(40);
        for (std::uint64_t k = 0; k < n; ++k) {
            work[i].push_back(step{static_cast<unsigned>(t.below(nl)), static_cast<std::uint32_t>(t.below(1000)), t.below(8) == 0u,
                                   static_cast<unsigned>(t.below(30))});
            const auto &w = work[i].back();
            expd[w.lock].sum += w.amount;
            ++expd[w.lock].visits;
            users[w.lock].insert(i);
        }
    }
    od::atomic_flag_array locks(nl);
    std::vector<std::string> bad(nt);
    std::barrier bar(static_cast<std::ptrdiff_t>(nt));
    {
        std::vector<std::jthread> th;
        for (unsigned i = 0; i < nt; ++i) {
            th.emplace_back([&, i] {
                bar.arrive_and_wait();
                for (const auto &w : work[i]) {
                    try {
                        od::atomic_lock_guard g(locks[w.lock]);
                        auto &a = acc[w.lock];
                        if (a.inside) bad[i] = "two threads inside";
                        a.inside = true;
                        const auto s = a.sum;
                        for (unsigned k = 0; k < w.spin; ++k) {
                            if (k % 8u == 7u) std::this_thread::yield();
                        }
                        if (a.sum != s) bad[i] = "the account changed inside a critical section";
                        a.sum = s + w.amount;
                        ++a.visits;
                        a.inside = false;
                        if (w.leave_by_exception) throw odd_exit{};
                    } catch (const odd_exit &) {
                        if (!w.leave_by_exception) bad[i] = "wrong exception";
                    }
                }
            });
        }
    }
    for (const auto &s : bad) PBT_CHECK(t, s.empty(), s);
    bool shared = false;
    for (unsigned i = 0; i < nl; ++i) {
        PBT_CHECK(t, acc[i].sum == expd[i].sum, "lock ", i, ": ", acc[i].sum, " instead of ", expd[i].sum);
        PBT_CHECK(t, acc[i].visits == expd[i].visits);
        PBT_CHECK(t, !locks[i].test_and_set(), "lock ", i, " is still held");
        shared = shared || users[i].size() > 1u;
    }
    t.nontrivial(shared);
}

PBT_RACY_SUB(long_sections, 8, 60,
             "1 or 2 locks, held for 50 ms to 2 s by a thread that sleeps while 1 to 3 others wait for them: nobody enters before "
             "the lock is released, everybody gets it in the end, and all locks are free then; non-trivial: always")
{
    const auto nl = 1u + static_cast<unsigned>(t.below(2)), nt = 1u + static_cast<unsigned>(t.below(3));
    static const std::vector<unsigned> times = {2000, 1000, 500, 200, 50};
    const auto ms = t.pick(times);
    const bool by_exception = t.below(4) == 0u;
    std::vector<unsigned> choice(nt);
    for (auto &c : choice) c = static_cast<unsigned>(t.below(nl));
    PBT_LOG(t, nl, " locks held for ", ms, " ms, ", nt, " threads wait");
    t.nontrivial();
    od::atomic_flag_array locks(nl);
    std::vector<account> acc(nl);
    std::vector<std::string> bad(nt);
    // Relaxed: orders nothing.
    std::atomic<bool> held{false};
    std::barrier bar(static_cast<std::ptrdiff_t>(nt + 1u));
    {
        std::vector<std::jthread> th;
        for (unsigned i = 0; i < nt; ++i) {
            th.emplace_back([&, i] {
                bar.arrive_and_wait();
                od::atomic_lock_guard g(locks[choice[i]]);
                if (held.load(std::memory_order_relaxed)) {
                    bad[i] = "entered while the lock was held by another thread";
                    return;
                }
                auto &a = acc[choice[i]];
                if (a.inside) bad[i] = "two threads inside";
                a.inside = true;
                const auto s = a.sum;
                std::this_thread::yield();
                a.sum = s + i + 1u;
                a.inside = false;
            });
        }
        try {
            std::vector<std::unique_ptr<od::atomic_lock_guard>> gs;
            for (unsigned i = 0; i < nl; ++i) gs.push_back(std::make_unique<od::atomic_lock_guard>(locks[i]));
            held.store(true, std::memory_order_relaxed);
            bar.arrive_and_wait();
            std::this_thread::sleep_for(std::chrono::milliseconds(ms));
            held.store(false, std::memory_order_relaxed);
            if (by_exception) throw odd_exit{};
        } catch (const odd_exit &) {
        }
    }
    for (const auto &s : bad) PBT_CHECK(t, s.empty(), s);
    for (unsigned i = 0; i < nl; ++i) {
        std::uint64_t e = 0;
        for (unsigned k = 0; k < nt; ++k) e += choice[k] == i ? k + 1u : 0u;
        PBT_CHECK(t, acc[i].sum == e, "lock ", i, ": ", acc[i].sum, " instead of ", e);
        PBT_CHECK(t, !locks[i].test_and_set(), "lock ", i, " is still held");
    }
}

PBT_SUB(flags, 60000, 1000000,
        "arrays of 0 to 300 flags, created over memory with other content, under histories of settings and clearings: all clear "
        "at first, and each one independent of the others; non-trivial: two flags used")
{
    const auto n = t.below(8) ? t.below(12) : t.below(300);
    {
        // Leave something in the memory that is about to be used.
        std::vector<unsigned char> dirty(static_cast<std::size_t>(n) + 1u, 0xff);
        volatile auto *p = dirty.data();
        for (std::size_t i = 0; i <= n; ++i) p[i] = 0xff;
    }
    od::atomic_flag_array a(static_cast<std::size_t>(n));
    const auto &ca = a;
    std::vector<bool> m(static_cast<std::size_t>(n), false);
    std::set<std::uint64_t> used;
    auto all = [&] {
        for (std::size_t i = 0; i < n; ++i) {
            PBT_CHECK(t, ca[i].test() == m[i], "flag ", i, " of ", n);
            PBT_CHECK(t, &ca[i] == &a[i]);
        }
    };
    all();
    if (n) {
        const auto steps = t.below(20);
        for (std::uint64_t k = 0; k < steps; ++k) {
            const auto i = static_cast<std::size_t>(t.below(n));
            used.insert(i);
            if (t.below(3)) {
                PBT_CHECK(t, a[i].test_and_set() == m[i], "flag ", i, " of ", n);
                m[i] = true;
            } else {
                a[i].clear();
                m[i] = false;
            }
            all();
        }
    }
    t.nontrivial(used.size() > 1u);
}

namespace
{
template <unsigned N>
struct object {
    static inline std::atomic<unsigned> made = 0, gone = 0;
    std::array<unsigned char, N + 1u> bytes;
    object()
    {
        ++made;
        // Others come while this one is being made.
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        bytes.fill(static_cast<unsigned char>(N));
    }
    ~object()
    {
        ++gone;
    }
};
struct access {
    void *(*get)();
    unsigned (*made)();
    unsigned (*gone)();
    bool (*intact)(void *);
    std::pair<void *, bool> (*fetch)();
};
template <unsigned N>
access make_access()
{
    return {[]() -> void * { return &od::fw_holder_class<object<N>>::get(); }, [] { return object<N>::made.load(); },
            [] { return object<N>::gone.load(); },
            [](void *p) {
                for (auto b : static_cast<object<N> *>(p)->bytes) {
                    if (b != static_cast<unsigned char>(N)) return false;
                }
                return true;
            },
            [] { return od::fw_fetch_storage(typeid(object<N>), sizeof(object<N>), [](void *) {}); }};
}
template <unsigned... N>
std::vector<access> make_all(std::integer_sequence<unsigned, N...>)
{
    return {make_access<N * 7u % 331u + N / 331u * 400u>()...};
}
const auto objects = make_all(std::make_integer_sequence<unsigned, 600>{});
std::map<std::size_t, void *> known;
} // namespace

PBT_RACY_SUB(one_object_per_type, 400, 4000,
             "2 to 6 threads ask the process-wide store for objects of 600 types, in generated orders, mostly for the first "
             "time: one object per type, made once, the same for everybody, apart from all the others and intact; non-trivial: "
             "two threads ask for an object that was not there")
{
    const auto nt = 2u + static_cast<unsigned>(t.below(5));
    const auto base = static_cast<std::size_t>(t.below(objects.size()));
    std::vector<std::vector<std::size_t>> work(nt);
    std::map<std::size_t, std::set<unsigned>> users;
    for (unsigned i = 0; i < nt; ++i) {
        const auto n = 1u + t.below(6);
        for (std::uint64_t k = 0; k < n; ++k) {
            const auto o = (base + static_cast<std::size_t>(t.below(4))) % objects.size();
            work[i].push_back(o);
            users[o].insert(i);
        }
    }
    bool fresh = false;
    for (const auto &u : users) fresh = fresh || (u.second.size() > 1u && known.count(u.first) == 0u);
    std::vector<std::vector<void *>> got(nt);
    std::vector<std::string> bad(nt);
    std::barrier bar(static_cast<std::ptrdiff_t>(nt));
    {
        std::vector<std::jthread> th;
        for (unsigned i = 0; i < nt; ++i) {
            th.emplace_back([&, i] {
                bar.arrive_and_wait();
                for (auto o : work[i]) {
                    got[i].push_back(objects[o].get());
                    if (!objects[o].intact(got[i].back())) bad[i] = "an object was handed out before it was made";
                }
            });
        }
    }
    for (unsigned i = 0; i < nt; ++i) {
        PBT_CHECK(t, bad[i].empty(), bad[i]);
        for (std::size_t k = 0; k < work[i].size(); ++k) {
            const auto o = work[i][k];
            const auto it = known.emplace(o, got[i][k]).first;
            PBT_CHECK(t, it->second == got[i][k], "two objects of type ", o);
            PBT_CHECK(t, objects[o].made() == 1u, objects[o].made(), " objects of type ", o, " made");
            PBT_CHECK(t, objects[o].gone() == 0u, "the object of type ", o, " was destroyed");
            const auto s = objects[o].fetch();
            PBT_CHECK(t, s.first == got[i][k] && !s.second, "the storage of type ", o, " is asked for again");
        }
    }
    std::set<void *> apart;
    for (const auto &k : known) {
        PBT_CHECK(t, apart.insert(k.second).second, "one object of two types");
        PBT_CHECK(t, objects[k.first].intact(k.second), "the object of type ", k.first, " was overwritten");
    }
    t.nontrivial(fresh);
}

PBT_RACY_SUB(concurrency, 200, 2000,
             "the number of threads, asked for in new threads under a system that answers any number: that number, one when the "
             "system does not know, and constant within a thread; non-trivial: the system does not know, or more than one")
{
    std::vector<unsigned> answers;
    const auto n = 1u + t.below(4);
    for (std::uint64_t i = 0; i < n; ++i) answers.push_back(t.below(3) ? static_cast<unsigned>(t.below(70)) : 0u);
    const unsigned before = pbt::hardware_threads;
    std::string bad;
    for (const auto a : answers) {
        pbt::hardware_threads = a;
        std::jthread([&] {
            const auto h = od::hc();
            if (h != (a ? a : 1u)) bad = pbt::cat(h, " threads, the system answers ", a);
            pbt::hardware_threads = a + 1u;
            if (od::hc() < 1u) bad = "no threads";
            pbt::hardware_threads = 0u;
            if (od::hc() < 1u) bad = "no threads";
        }).join();
        t.nontrivial(a != 1u);
    }
    pbt::hardware_threads = before;
    PBT_CHECK(t, bad.empty(), bad);
}
