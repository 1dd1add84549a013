// The runner. See pbt.hpp.
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <thread>
#include <typeinfo>
#include <unordered_set>

#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
using namespace pbt;
using u64 = std::uint64_t;
using clk = std::chrono::steady_clock;

std::vector<sub> &subs()
{
    static std::vector<sub> v;
    return v;
}
std::vector<void (*)()> &inits()
{
    static std::vector<void (*)()> v;
    return v;
}

u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

constexpr std::size_t max_choices = 1u << 18;

// Shared between a worker and the runner: survives the worker's death.
struct slot {
    std::atomic<int> sub_idx;
    std::atomic<u64> case_idx;
    std::atomic<u64> started_ms; // 0: no case running
    std::atomic<u64> n_choices;
    std::atomic<int> failed; // 1: an oracle disagreed, msg is set
    char msg[8192];
    u64 choices[max_choices];
};

slot *g_slot = nullptr;

slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return new (p) slot();
}

u64 now_ms()
{
    return static_cast<u64>(
               std::chrono::duration_cast<std::chrono::milliseconds>(clk::now().time_since_epoch()).count())
           + 1u;
}

struct opts {
    std::string property, tier = "quick", evidence, replay_dir, replay, rules, only;
    u64 seed = 1;
    unsigned workers = 8;
    double scale = 1;
    double max_seconds = 0;
    double case_timeout = 60;
} O;

struct outcome {
    bool bad = false;
    bool hang = false;
    bool error = false; // the runner cannot tell (killed by the system)
    std::string msg;
    std::vector<u64> choices;
};

void setup_process()
{
    for (auto f : inits()) f();
}

// Run one case in this process. Throws failure on disagreement.
void run_case(const sub &s, T &t, slot *sl)
{
    g_slot = sl;
    if (sl) {
        sl->n_choices = 0;
        sl->started_ms = now_ms();
    }
    try {
        s.fn(t);
    } catch (const failure &) {
        throw;
    } catch (const std::exception &e) {
        int st = 0;
        char *nm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        const std::string n = nm ? nm : typeid(e).name();
        std::free(nm);
        throw failure{"unexpected exception of type " + n + ": " + std::string(e.what()).substr(0, 2000)};
    } catch (...) {
        throw failure{"unexpected exception of unknown type"};
    }
    if (sl) sl->started_ms = 0;
}

void init_case(T &t, const sub &s, u64 idx)
{
    u64 h = 1469598103934665603ull;
    for (const char *p = s.name; *p; ++p) h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
    t.m_rng = mix(mix(O.seed ^ h) + idx * 0x9e3779b97f4a7c15ull);
    t.size = static_cast<unsigned>(mix(t.m_rng ^ 0xabcdefull) % 101u);
}

// A case, or a prefix of a worker's cases, in a child process.
template <typename F>
outcome in_child(F f, double timeout_s)
{
    static slot *sl = new_slot();
    sl->failed = 0;
    sl->n_choices = 0;
    sl->started_ms = 0;
    sl->msg[0] = 0;
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::exit(2);
    }
    if (pid == 0) {
        setpgid(0, 0);
        if (!std::getenv("PBT_DEBUG")) {
            if (!std::freopen("/dev/null", "w", stderr)) std::_Exit(3);
        }
        setup_process();
        try {
            f(sl);
        } catch (const failure &e) {
            std::strncpy(sl->msg, e.msg.c_str(), sizeof(sl->msg) - 1u);
            sl->failed = 1;
            std::_Exit(10);
        }
        std::_Exit(0);
    }
    const auto t0 = clk::now();
    int st = 0;
    outcome o;
    unsigned nap = 50;
    while (true) {
        const pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (std::chrono::duration<double>(clk::now() - t0).count() > timeout_s) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.bad = o.hang = true;
            o.msg = "no answer within " + std::to_string(timeout_s) + " s (hang)";
            break;
        }
        usleep(nap);
        nap = std::min(nap * 2u, 20000u);
    }
    if (!o.hang) {
        if (WIFSIGNALED(st)) {
            const int sg = WTERMSIG(st);
            if (sg == SIGKILL || sg == SIGTERM) {
                o.error = true;
                o.msg = "killed by signal " + std::to_string(sg);
            } else {
                o.bad = true;
                o.msg = std::string("crash: signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")";
            }
        } else if (WEXITSTATUS(st) == 10) {
            o.bad = true;
            o.msg = sl->msg;
        } else if (WEXITSTATUS(st) != 0) {
            o.bad = true;
            o.msg = "abnormal exit with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer or abort)";
        }
    }
    const auto n = std::min<u64>(sl->n_choices.load(), max_choices);
    o.choices.assign(sl->choices, sl->choices + n);
    return o;
}

outcome try_choices(const sub &s, const std::vector<u64> &c, unsigned size, double timeout_s, int reps,
                    std::string *log = nullptr)
{
    std::string logpath;
    if (log) {
        logpath = O.replay_dir + "/.log." + std::to_string(getpid());
    }
    auto o = in_child(
        [&](slot *sl) {
            for (int r = 0; r < reps; ++r) {
                T t;
                t.m_replay = true;
                t.m_in = c;
                t.size = size;
                t.verbose = log != nullptr;
                struct dump {
                    T &t;
                    const std::string &p;
                    ~dump()
                    {
                        if (!p.empty()) {
                            std::ofstream f(p);
                            f << t.log.str();
                        }
                    }
                } d{t, logpath};
                run_case(s, t, sl);
            }
        },
        timeout_s);
    if (log) {
        std::ifstream f(logpath);
        std::ostringstream oss;
        oss << f.rdbuf();
        *log = oss.str();
        unlink(logpath.c_str());
    }
    return o;
}

std::vector<u64> shrink(const sub &s, std::vector<u64> c, unsigned size, outcome &last, double budget_s)
{
    const auto t0 = clk::now();
    const double to = 10;
    unsigned runs = 0;
    auto out_of_time = [&] {
        return std::chrono::duration<double>(clk::now() - t0).count() > budget_s || runs > 4000u;
    };
    const int reps = s.racy ? 20 : 1;
    auto attempt = [&](const std::vector<u64> &cand) {
        ++runs;
        auto o = try_choices(s, cand, size, to, reps);
        if (!o.bad) return false;
        auto used = o.hang ? cand : o.choices;
        if (used.size() > cand.size()) used.resize(cand.size());
        while (!used.empty() && used.back() == 0) used.pop_back();
        // Shortlex order: only ever accept something simpler.
        if (used.size() > c.size() || (used.size() == c.size() && !(used < c))) return false;
        c = used;
        last = o;
        return true;
    };
    bool progress = true;
    while (progress && !out_of_time()) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(c.size() / 2u, 1u); len >= 1u; len /= 2u) {
            for (std::size_t i = 0; i + len <= c.size() && !out_of_time();) {
                auto d = c;
                d.erase(d.begin() + static_cast<std::ptrdiff_t>(i), d.begin() + static_cast<std::ptrdiff_t>(i + len));
                if (attempt(d)) {
                    progress = true;
                } else {
                    // Deleting one element of a list usually needs its length lowered too.
                    bool ok = false;
                    for (std::size_t back = 1; back <= 4u && back <= i && !ok && len <= 8u; ++back) {
                        if (d[i - back]) {
                            auto e = d;
                            --e[i - back];
                            ok = attempt(e);
                        }
                    }
                    if (ok) progress = true;
                    else i += std::max<std::size_t>(len / 2u, 1u);
                }
            }
            if (len == 1u) break;
        }
        for (std::size_t i = 0; i < c.size() && !out_of_time(); ++i) {
            if (!c[i]) continue;
            auto d = c;
            d[i] = 0;
            if (attempt(d)) {
                progress = true;
                continue;
            }
            u64 lo = 0;
            while (i < c.size() && c[i] - lo > 1u && !out_of_time()) {
                const u64 mid = lo + (c[i] - lo) / 2u;
                d = c;
                d[i] = mid;
                if (attempt(d)) progress = true;
                else lo = mid;
            }
        }
    }
    return c;
}

std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (char ch : s) {
        const auto u = static_cast<unsigned char>(ch);
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch == '\n') {
            r += "\\n";
        } else if (ch == '\t') {
            r += "\\t";
        } else if (u < 0x20u || u >= 0x7fu) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", u);
            r += b;
        } else {
            r += ch;
        }
    }
    return r + "\"";
}

struct totals {
    std::map<std::string, u64> evals, nontriv_by_sub;
    std::map<std::string, u64> labels;
    std::map<std::string, std::vector<std::string>> samples;
    std::unordered_set<u64> nontrivial;
    double wall = 0;
    int violations = 0;
};

void write_evidence(const totals &tt)
{
    if (O.evidence.empty()) return;
    std::ofstream f(O.evidence);
    u64 ev = 0;
    for (const auto &p : tt.evals) ev += p.second;
    std::string rule;
    for (const auto &s : subs()) {
        rule += std::string(rule.empty() ? "" : " | ") + s.name + ": " + s.rule;
    }
    rule += " | distinct = different sequence of generator choices";
    f << "{\n \"property\": " << jstr(O.property) << ",\n \"tier\": " << jstr(O.tier) << ",\n \"seed\": " << O.seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << tt.nontrivial.size() << ",\n  \"rule\": " << jstr(rule)
      << ",\n  \"cases_per_check\": {";
    bool first = true;
    for (const auto &p : tt.evals) {
        const auto it = tt.nontriv_by_sub.find(p.first);
        f << (first ? "" : ",") << "\n   " << jstr(p.first) << ": {\"evaluations\": " << p.second
          << ", \"nontrivial\": " << (it == tt.nontriv_by_sub.end() ? 0 : it->second) << "}";
        first = false;
    }
    f << "\n  },\n  \"classes\": {";
    first = true;
    for (const auto &p : tt.labels) {
        f << (first ? "" : ",") << "\n   " << jstr(p.first) << ": " << p.second;
        first = false;
    }
    f << "\n  },\n  \"samples\": [";
    first = true;
    for (const auto &p : tt.samples) {
        for (const auto &s : p.second) {
            f << (first ? "" : ",") << "\n   " << jstr(p.first + ": " + s);
            first = false;
        }
    }
    f << "\n  ]\n },\n \"assumptions\": [],\n \"wall_s\": " << tt.wall << ",\n \"violations\": " << tt.violations
      << "\n}\n";
}

u64 n_cases(const sub &s)
{
    const auto n = static_cast<double>(O.tier == "thorough" ? s.thorough_cases : s.quick_cases) * O.scale;
    return n < 1 ? 1u : static_cast<u64>(n);
}

// The cases of one worker, in order: a pure function of the seed.
template <typename F>
void worker_cases(unsigned w, F f)
{
    // Interleave the sub-checks in a few rounds, so that every one runs early.
    constexpr u64 rounds = 8;
    for (u64 r = 0; r < rounds; ++r) {
        for (std::size_t si = 0; si < subs().size(); ++si) {
            const auto &s = subs()[si];
            if (!O.only.empty() && O.only != s.name) continue;
            const u64 n = n_cases(s);
            const u64 b = n * r / rounds, e = n * (r + 1u) / rounds;
            for (u64 i = b; i < e; ++i) {
                if (i % O.workers == w) {
                    if (!f(si, i)) return;
                }
            }
        }
    }
}

void worker_main(unsigned w, slot *sl, const std::string &out, clk::time_point deadline)
{
    setup_process();
    std::map<std::string, u64> evals, nt, labels;
    std::map<std::string, std::vector<std::string>> samples;
    std::vector<u64> hashes;
    bool capped = false;
    worker_cases(w, [&](std::size_t si, u64 i) {
        const auto &s = subs()[si];
        if (O.max_seconds > 0 && clk::now() > deadline) {
            capped = true;
            return false;
        }
        T t;
        init_case(t, s, i);
        sl->sub_idx = static_cast<int>(si);
        sl->case_idx = i;
        auto &sm = samples[s.name];
        t.verbose = w == 0u && sm.size() < 3u && t.size > 15u;
        try {
            run_case(s, t, sl);
        } catch (const failure &e) {
            std::strncpy(sl->msg, e.msg.c_str(), sizeof(sl->msg) - 1u);
            sl->failed = 1;
            std::_Exit(10);
        }
        ++evals[s.name];
        for (const auto &l : t.m_labels) ++labels[std::string(s.name) + "/" + l];
        if (t.m_nontrivial) {
            ++nt[s.name];
            u64 h = mix(si + 1u);
            const auto n = std::min<u64>(sl->n_choices.load(), max_choices);
            for (u64 k = 0; k < n; ++k) h = mix(h ^ sl->choices[k]);
            hashes.push_back(h);
            if (t.verbose) sm.push_back(t.log.str().substr(0, 600));
        }
        return true;
    });
    std::ofstream f(out, std::ios::binary);
    auto wr = [&](const std::string &tag, const std::string &k, u64 v) { f << tag << '\t' << v << '\t' << k << '\n'; };
    for (auto &p : evals) wr("E", p.first, p.second);
    for (auto &p : nt) wr("N", p.first, p.second);
    for (auto &p : labels) wr("L", p.first, p.second);
    if (capped) wr("L", "runner/stopped_by_time_budget", 1);
    for (auto &p : samples) {
        for (auto s : p.second) {
            std::replace(s.begin(), s.end(), '\n', ';');
            std::replace(s.begin(), s.end(), '\t', ' ');
            wr("S", p.first + "\t" + s, 0);
        }
    }
    for (auto h : hashes) f << "H\t" << h << '\n';
    f.close();
    std::_Exit(0);
}

void report(const std::string &path)
{
    std::cout << "\nVIOLATION property=" << O.property << " replay=" << path << std::endl;
}

std::string save_replay(const sub &s, unsigned size, const std::vector<u64> &c, const std::string &msg,
                        const std::string &log, const std::string &prefix)
{
    u64 h = mix(size);
    for (auto v : c) h = mix(h ^ v);
    for (char ch : prefix) h = mix(h ^ static_cast<unsigned char>(ch));
    char b[32];
    std::snprintf(b, sizeof b, "%08llx", static_cast<unsigned long long>(h & 0xffffffffull));
    mkdir(O.replay_dir.c_str(), 0755);
    const std::string path = O.replay_dir + "/" + O.property + "-" + s.name + "-" + b + ".case";
    std::ofstream f(path);
    f << "property " << O.property << "\nsub " << s.name << "\nsize " << size << "\n";
    if (!prefix.empty()) f << "prefix " << prefix << "\n";
    f << "choices " << c.size();
    for (auto v : c) f << ' ' << v;
    f << "\n";
    std::istringstream is("what: " + msg + "\n" + log);
    std::string line;
    while (std::getline(is, line)) f << "# " << line << "\n";
    return path;
}

outcome run_prefix(unsigned w, std::size_t stop_sub, u64 stop_idx)
{
    return in_child(
        [&](slot *sl) {
            worker_cases(w, [&](std::size_t si, u64 i) {
                T t;
                init_case(t, subs()[si], i);
                run_case(subs()[si], t, sl);
                return !(si == stop_sub && i == stop_idx);
            });
        },
        600);
}

int replay_file(const std::string &path, bool print)
{
    std::ifstream f(path);
    if (!f) {
        std::cerr << "cannot read " << path << "\n";
        return 2;
    }
    std::string key, subname, prefix;
    unsigned size = 0;
    std::vector<u64> c;
    bool have = false;
    while (f >> key) {
        if (key[0] == '#') {
            std::string rest;
            std::getline(f, rest);
        } else if (key == "property") {
            f >> subname;
        } else if (key == "sub") {
            f >> subname;
        } else if (key == "size") {
            f >> size;
        } else if (key == "prefix") {
            std::getline(f, prefix);
        } else if (key == "choices") {
            std::size_t n = 0;
            f >> n;
            c.resize(n);
            for (auto &v : c) f >> v;
            have = true;
        }
    }
    const sub *s = nullptr;
    std::size_t si = 0;
    for (std::size_t i = 0; i < subs().size(); ++i) {
        if (subname == subs()[i].name) {
            s = &subs()[i];
            si = i;
        }
    }
    if (!s || !have) {
        std::cerr << "bad replay file " << path << "\n";
        return 2;
    }
    outcome o;
    std::string log;
    if (!prefix.empty()) {
        std::istringstream is(prefix);
        unsigned w = 0;
        u64 idx = 0;
        is >> O.seed >> O.tier >> O.workers >> w >> idx >> O.scale;
        o = run_prefix(w, si, idx);
    } else {
        o = try_choices(*s, c, size, O.case_timeout, s->racy ? 300 : 1, &log);
    }
    if (print) std::cout << log << (o.bad ? "FAILS: " + o.msg : std::string("holds")) << "\n";
    if (o.error) return 2;
    if (o.bad) {
        report(path);
        return 1;
    }
    return 0;
}

} // namespace

namespace pbt
{
reg::reg(const sub &s)
{
    subs().push_back(s);
}
reg_init::reg_init(void (*f)())
{
    inits().push_back(f);
}

std::uint64_t T::below(std::uint64_t n)
{
    if (n == 0u) n = 1u;
    std::uint64_t v = 0;
    if (m_replay) {
        v = m_pos < m_in.size() ? std::min(m_in[m_pos], n - 1u) : 0u;
    } else {
        m_rng += 0x9e3779b97f4a7c15ull;
        v = mix(m_rng) % n;
    }
    if (g_slot && m_pos < max_choices) {
        g_slot->choices[m_pos] = v;
        g_slot->n_choices = m_pos + 1u;
    }
    ++m_pos;
    return v;
}

void T::label(const char *l)
{
    m_labels.emplace_back(l);
}
} // namespace pbt

// The library chooses its algorithms by the number of processors: do not depend on those of this machine.
namespace pbt
{
std::atomic<unsigned> hardware_threads(8);
}
unsigned std::thread::hardware_concurrency() noexcept
{
    return pbt::hardware_threads;
}

int main(int argc, char **argv)
{
    if (argc == 2 && std::string(argv[1]) == "--self-test") return 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string k = argv[i], v = argv[i + 1];
        if (k == "--property") O.property = v;
        else if (k == "--tier") O.tier = v;
        else if (k == "--seed") O.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--evidence") O.evidence = v;
        else if (k == "--replay-dir") O.replay_dir = v;
        else if (k == "--replay") O.replay = v;
        else if (k == "--workers") O.workers = static_cast<unsigned>(std::atoi(v.c_str()));
        else if (k == "--scale") O.scale = std::atof(v.c_str());
        else if (k == "--max-seconds") O.max_seconds = std::atof(v.c_str());
        else if (k == "--only") O.only = v;
        else if (k == "--case-timeout") O.case_timeout = std::atof(v.c_str());
        else {
            std::cerr << "unknown option " << k << "\n";
            return 2;
        }
    }
    std::sort(subs().begin(), subs().end(),
              [](const sub &a, const sub &b) { return std::string(a.name) < std::string(b.name); });
    if (O.replay_dir.empty()) O.replay_dir = ".";
    mkdir(O.replay_dir.c_str(), 0755);
    if (subs().empty()) {
        std::cerr << "nothing to check\n";
        return 2;
    }
    if (!O.replay.empty()) return replay_file(O.replay, true);

    const auto t0 = clk::now();
    const auto deadline = t0 + std::chrono::milliseconds(static_cast<long>(O.max_seconds * 1000));
    struct wk {
        pid_t pid;
        slot *sl;
        std::string out;
        bool done = false;
    };
    std::vector<wk> ws;
    std::fflush(nullptr);
    for (unsigned w = 0; w < O.workers; ++w) {
        wk k;
        k.sl = new_slot();
        k.out = O.replay_dir + "/.w" + std::to_string(getpid()) + "." + std::to_string(w);
        k.pid = fork();
        if (k.pid < 0) {
            std::perror("fork");
            return 2;
        }
        if (k.pid == 0) {
            setpgid(0, 0);
            worker_main(w, k.sl, k.out, deadline);
        }
        ws.push_back(k);
    }
    int bad = -1;
    bool hang = false, error = false;
    std::string what;
    std::size_t left = ws.size();
    while (left && bad < 0 && !error) {
        bool any = false;
        for (std::size_t i = 0; i < ws.size(); ++i) {
            auto &k = ws[i];
            if (k.done) continue;
            int st = 0;
            const pid_t r = waitpid(k.pid, &st, WNOHANG);
            if (r == k.pid) {
                any = true;
                k.done = true;
                --left;
                if (WIFSIGNALED(st)) {
                    const int sg = WTERMSIG(st);
                    if (sg == SIGKILL || sg == SIGTERM) {
                        error = true;
                        what = "worker killed by signal " + std::to_string(sg);
                    } else {
                        bad = static_cast<int>(i);
                        what = std::string("crash: signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")";
                    }
                } else if (WEXITSTATUS(st) == 10) {
                    bad = static_cast<int>(i);
                    what = k.sl->msg;
                } else if (WEXITSTATUS(st) != 0) {
                    bad = static_cast<int>(i);
                    what = "abnormal exit with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer or abort)";
                }
                if (bad >= 0 || error) break;
            } else {
                const u64 s = k.sl->started_ms;
                if (s && now_ms() > s + static_cast<u64>(O.case_timeout * 1000)) {
                    bad = static_cast<int>(i);
                    hang = true;
                    what = "a case gave no answer within the time limit (hang)";
                    break;
                }
            }
        }
        if (!any) usleep(5000);
    }
    for (auto &k : ws) {
        if (!k.done) {
            kill(-k.pid, SIGKILL);
            kill(k.pid, SIGKILL);
            waitpid(k.pid, nullptr, 0);
        }
    }
    totals tt;
    tt.wall = std::chrono::duration<double>(clk::now() - t0).count();
    for (auto &k : ws) {
        std::ifstream f(k.out);
        std::string line;
        while (std::getline(f, line)) {
            const auto p = line.find('\t');
            const auto q = line.find('\t', p + 1u);
            const std::string tag = line.substr(0, p);
            const u64 v = std::strtoull(line.c_str() + p + 1u, nullptr, 10);
            const std::string key = q == std::string::npos ? "" : line.substr(q + 1u);
            if (tag == "E") tt.evals[key] += v;
            else if (tag == "N") tt.nontriv_by_sub[key] += v;
            else if (tag == "L") tt.labels[key] += v;
            else if (tag == "H") tt.nontrivial.insert(v);
            else if (tag == "S") {
                const auto z = key.find('\t');
                tt.samples[key.substr(0, z)].push_back(key.substr(z + 1u));
            }
        }
        unlink(k.out.c_str());
    }
    if (error) {
        std::cerr << "ERROR: " << what << "\n";
        return 2;
    }
    if (bad < 0) {
        write_evidence(tt);
        u64 ev = 0;
        for (const auto &p : tt.evals) ev += p.second;
        std::cout << "property " << O.property << " (" << O.tier << ", seed " << O.seed << "): held on " << ev
                  << " cases, " << tt.nontrivial.size() << " distinct and non-trivial, " << tt.wall << " s\n";
        return 0;
    }
    // A case failed: find the smallest choices that still fail, and confirm three times.
    tt.violations = 1;
    auto *sl = ws[static_cast<std::size_t>(bad)].sl;
    const auto si = static_cast<std::size_t>(sl->sub_idx.load());
    const sub &s = subs()[si];
    const u64 idx = sl->case_idx;
    ++tt.evals[s.name];
    T tmp;
    init_case(tmp, s, idx);
    std::vector<u64> c(sl->choices, sl->choices + std::min<u64>(sl->n_choices.load(), max_choices));
    std::cerr << "sub-check " << s.name << ", case " << idx << ": " << what.substr(0, 1500) << "\n";
    const int reps = s.racy ? 300 : 1;
    const double to = hang ? O.case_timeout : O.case_timeout * 2;
    auto o = try_choices(s, c, tmp.size, to, reps);
    if (o.bad) {
        if (!hang) {
            auto used = o.choices;
            if (used.size() < c.size() && !o.hang) c = used;
            c = shrink(s, c, tmp.size, o, O.tier == "thorough" ? 180 : 60);
        }
        std::string log;
        int again = 0;
        for (int r = 0; r < 3; ++r) {
            auto o2 = try_choices(s, c, tmp.size, to, reps, &log);
            if (o2.bad) {
                ++again;
                o = o2;
            }
        }
        const auto path = save_replay(s, tmp.size, c, o.msg, log, "");
        std::cerr << "minimal: " << o.msg.substr(0, 1500) << "\n" << log.substr(0, 4000) << "\n";
        if (again == 3 || s.racy) {
            write_evidence(tt);
            report(path);
            return 1;
        }
    }
    // The failure needs what ran before it in the same process: replay that history.
    const std::string prefix = cat(O.seed, " ", O.tier, " ", O.workers, " ", bad, " ", idx, " ", O.scale);
    const auto path = save_replay(s, tmp.size, c, what, "", prefix);
    if (!hang) {
        auto p = run_prefix(static_cast<unsigned>(bad), si, idx);
        std::cerr << "history replay: " << (p.bad ? p.msg : std::string("holds")) << "\n";
        if (p.bad && !p.hang) {
            write_evidence(tt);
            report(path);
            return 1;
        }
        if (s.racy || sl->failed) {
            // Seen once by an oracle on real code: a schedule-dependent failure.
            write_evidence(tt);
            report(path);
            return 1;
        }
    }
    std::cerr << "ERROR: a failure that does not reproduce: " << what << "\n";
    return 2;
}
