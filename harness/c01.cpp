// C01: the power cache and the other process-wide state under concurrency.
// Compiled with the thread sanitizer and the stand-in for oneTBB of shim_tbb/.
#include "poly_model.hpp"

#include <functional>
#include <thread>

#include <obake/byte_size.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>

#include <tbb/pbt_tbb.hpp>

using namespace pm;

#if VARIANT == 1
using P = obake::polynomial<obake::packed_monomial<std::int64_t>, integer>;
#else
using P = obake::polynomial<obake::d_packed_monomial<std::int64_t, 3>, rational>;
#endif
using C = obake::series_cf_t<P>;
#if VARIANT == 1
using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, rational>;
#else
using Q = obake::polynomial<obake::packed_monomial<std::int32_t>, P>;
#endif

namespace
{

struct base_t {
    P p;
    model<C> m;
    mask_t mask;
};

// A few bases, some of them equal, some differing in one respect only. Large coefficients make the library use its parallel
// algorithms on a few terms.
std::vector<base_t> gen_bases(pbt::T &t, unsigned n)
{
    std::vector<base_t> r;
    for (unsigned i = 0; i < n; ++i) {
        if (i && t.below(3) == 0u) {
            base_t b = r[t.below(i)];
            switch (t.below(4)) {
                case 0:
                    break; // equal
                case 1:
                    if (!b.m.empty()) b.m.begin()->second = b.m.begin()->second + C(1);
                    if (!b.m.empty() && czero(b.m.begin()->second)) b.m.erase(b.m.begin());
                    break;
                case 2:
                    b.mask |= 1u << t.below(NS);
                    break;
                default:
                    for (auto &q : b.m) q.second = -q.second;
            }
            b.p = build<P>(b.m, b.mask, static_cast<unsigned>(t.below(4)));
            r.push_back(std::move(b));
        } else {
            const mask_t mask = gen_mask(t) | 1u;
            auto m = gen_model<C>(t, mask, 5, erange{0, 3});
            if (t.below(2)) {
                for (auto &q : m) q.second = q.second * C(integer(1) << static_cast<unsigned>(60000u + t.below(30000u)));
            }
            r.push_back(base_t{build<P>(m, mask, static_cast<unsigned>(t.below(4))), m, mask});
        }
    }
    return r;
}

struct op_t {
    unsigned kind, i, j, e;
    model<C> exp;
    P res;
    bool flag = true;
    C val{};
};

C npow(const C &x, expo n)
{
    C r(1);
    for (expo i = 0; i < n; ++i) r = r * x;
    return r;
}
int point(unsigned j)
{
    return static_cast<int>(j) - 2;
}

// Bases first used: the model powers are shared.
struct powers {
    const std::vector<base_t> &b;
    std::map<std::pair<unsigned, unsigned>, model<C>> m;
    const model<C> &get(unsigned i, unsigned e)
    {
        auto it = m.find({i, e});
        if (it != m.end()) return it->second;
        auto r = e == 0u ? constant(C(1)) : mul(get(i, e - 1u), b[i].m);
        return m.emplace(std::make_pair(i, e), std::move(r)).first->second;
    }
};

std::vector<op_t> gen_ops(pbt::T &t, const std::vector<base_t> &b, unsigned n, powers &pw)
{
    std::vector<op_t> r(n);
    for (auto &o : r) {
        o.kind = static_cast<unsigned>(t.below(14));
        o.i = static_cast<unsigned>(t.below(b.size()));
        o.j = static_cast<unsigned>(t.below(b.size()));
        o.e = static_cast<unsigned>(t.below(5));
        switch (o.kind) {
            case 4:
                o.exp = mul(b[o.i].m, b[o.j].m);
                break;
            case 5:
                o.exp = add(b[o.i].m, b[o.j].m);
                break;
            case 6:
            case 7:
            case 8:
            case 12:
                break;
            case 9: {
                // Replace a symbol of the first with the second: powers of the second are taken from the cache.
                const auto s = o.e % NS;
                for (const auto &q : b[o.i].m) {
                    auto e = q.first;
                    const auto n = static_cast<unsigned>(e[s]);
                    e[s] = 0;
                    model<C> k;
                    k.emplace(e, q.second);
                    o.exp = add(o.exp, mul(pw.get(o.j, n), k));
                }
                break;
            }
            case 10: {
                const auto s = o.e % NS;
                for (const auto &q : b[o.i].m) {
                    auto e = q.first;
                    if (e[s] == 0) continue;
                    const auto c = C(q.second * C(static_cast<int>(e[s])));
                    --e[s];
                    add_to(o.exp, e, c);
                }
                break;
            }
            case 11: {
                for (const auto &q : b[o.i].m) {
                    C x(q.second);
                    for (unsigned j = 0; j < NS; ++j) x = x * npow(C(point(j)), q.first[j]);
                    o.val = o.val + x;
                }
                break;
            }
            default:
                o.exp = pw.get(o.i, o.e);
        }
    }
    return r;
}

void perform(op_t &o, const std::vector<base_t> &b)
{
    switch (o.kind) {
        case 4:
            o.res = b[o.i].p * b[o.j].p;
            break;
        case 5:
            o.res = b[o.i].p + b[o.j].p;
            break;
        case 6: {
            P c(b[o.i].p);
            o.flag = (c == b[o.i].p) && obake::byte_size(c) >= sizeof(P);
            break;
        }
        case 7:
            obake::customisation::internal::clear_series_pow_map();
            break;
        case 8: {
            expo d = 0;
            bool first = true;
            for (const auto &q : b[o.i].m) {
                if (first || tdeg(q.first) > d) d = tdeg(q.first);
                first = false;
            }
            o.flag = obake::degree(b[o.i].p) == d;
            break;
        }
        case 9:
            o.res = P(obake::subs(b[o.i].p, obake::symbol_map<P>{{names[o.e % NS], b[o.j].p}}));
            break;
        case 10:
            o.res = obake::diff(b[o.i].p, names[o.e % NS]);
            break;
        case 11: {
            obake::symbol_map<C> sm;
            for (unsigned j = 0; j < NS; ++j) sm.emplace(names[j], C(point(j)));
            o.flag = obake::evaluate(b[o.i].p, sm) == o.val;
            break;
        }
        case 12: {
            // To another type and back.
            const Q c(b[o.i].p);
            o.flag = P(c) == b[o.i].p;
            break;
        }
        default:
            o.res = obake::pow(b[o.i].p, o.e);
    }
}

void verify(pbt::T &t, const std::vector<base_t> &b, const std::vector<op_t> &ops)
{
    static const char *const nm[] = {"power", "power", "power", "power", "product", "sum", "copy", "clear", "degree", "substitution",
                                     "derivative", "evaluation", "conversion", "power"};
    for (const auto &o : ops) {
        if (o.kind < 6u || o.kind == 9u || o.kind == 10u || o.kind == 13u) {
            PBT_CHECK(t, to_model(o.res) == o.exp, "wrong ", nm[o.kind], " of ", o.i, ", ", o.j, ", ", o.e);
        } else {
            PBT_CHECK(t, o.flag, "wrong ", nm[o.kind]);
        }
    }
    for (const auto &x : b) same(t, x.p, x.m, "a shared operand");
}

} // namespace

PBT_SUB(inside_tasks, 400, 40000,
        "powers, products, sums, substitutions, derivatives, evaluations, conversions, copies, clearings of the power cache inside 2 to 6 tasks of one parallel algorithm, run by a "
        "scheduler that makes a waiting thread execute any other pending task it may; non-trivial: two tasks compute powers and "
        "at least one task was run by a thread that waited for something else")
{
    obake::customisation::internal::clear_series_pow_map();
    auto b = gen_bases(t, 1u + static_cast<unsigned>(t.below(4)));
    powers pw{b, {}};
    auto ops = gen_ops(t, b, 2u + static_cast<unsigned>(t.below(5)), pw);
    pbt_tbb::configure(pbt_tbb::mode::steal, t.below(1u << 30), 4u);
    std::vector<std::function<void()>> fs;
    for (auto &o : ops) {
        fs.emplace_back([&o, &b] { perform(o, b); });
    }
    pbt_tbb::run(fs);
    const auto stolen = pbt_tbb::cfg.stolen;
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
    verify(t, b, ops);
    unsigned np = 0;
    for (const auto &o : ops) np += o.kind < 4u || o.kind == 9u || o.kind == 13u;
    t.nontrivial(np > 1u && stolen > 0u);
    if (stolen) t.label("a waiting thread ran another task");
    obake::customisation::internal::clear_series_pow_map();
}

PBT_RACY_SUB(from_threads, 150, 12000,
             "the same operations from 2 to 6 threads started together, on shared constant operands, under the thread "
             "sanitizer; non-trivial: two threads compute powers")
{
    obake::customisation::internal::clear_series_pow_map();
    auto b = gen_bases(t, 1u + static_cast<unsigned>(t.below(4)));
    powers pw{b, {}};
    auto ops = gen_ops(t, b, 2u + static_cast<unsigned>(t.below(5)), pw);
    pbt_tbb::configure(pbt_tbb::mode::threads, t.below(1u << 30), 2u);
    std::vector<std::exception_ptr> ep(ops.size());
    {
        std::vector<std::jthread> th;
        for (std::size_t i = 0; i < ops.size(); ++i) {
            th.emplace_back([&, i] {
                try {
                    perform(ops[i], b);
                } catch (...) {
                    ep[i] = std::current_exception();
                }
            });
        }
    }
    for (const auto &e : ep) {
        if (e) std::rethrow_exception(e);
    }
    pbt_tbb::configure(pbt_tbb::mode::serial, 0, 4u);
    verify(t, b, ops);
    unsigned np = 0;
    for (const auto &o : ops) np += o.kind < 4u || o.kind == 9u || o.kind == 13u;
    t.nontrivial(np > 1u);
    obake::customisation::internal::clear_series_pow_map();
}

#if VARIANT == 1
PBT_RACY_SUB(symbols_from_threads, 150, 12000,
             "symbol sets created, shared, compared and destroyed from 2 to 6 threads, with stack traces switched on and off "
             "and taken meanwhile, under the thread sanitizer; non-trivial: two threads use the same set")
{
    const unsigned n = 2u + static_cast<unsigned>(t.below(5));
    std::vector<std::vector<mask_t>> work(n);
    for (auto &w : work) {
        const auto k = 1u + t.below(6);
        for (std::uint64_t i = 0; i < k; ++i) w.push_back(static_cast<mask_t>(t.below(8)));
    }
    bool common = false;
    for (auto m : work[0]) {
        for (auto q : work[1]) common = common || m == q;
    }
    const bool traces = t.below(4) == 0u;
    std::vector<std::string> bad(n);
    {
        std::vector<std::jthread> th;
        for (unsigned i = 0; i < n; ++i) {
            th.emplace_back([&, i] {
                P keep;
                for (auto m : work[i]) {
                    P p;
                    p.set_symbol_set(to_ss(m));
                    P q(p);
                    if (!(q.get_symbol_set() == to_ss(m))) bad[i] = "wrong symbol set";
                    if (!(q.get_symbol_set_fw() == p.get_symbol_set_fw())) bad[i] = "different flyweights";
                    keep = std::move(q);
                    if (traces) {
                        const auto s = obake::stack_trace();
                        if (s.empty() && obake::stack_trace_enabled()) bad[i] = "";
                        obake::set_stack_trace_enabled(false);
                    }
                }
                auto [x, y] = obake::make_polynomials<P>("x", "y");
                if (!(x.get_symbol_set() == obake::symbol_set{"x"})) bad[i] = "wrong generator";
                if (x.get_symbol_set_fw() == y.get_symbol_set_fw()) bad[i] = "equal flyweights";
            });
        }
    }
    for (const auto &s : bad) PBT_CHECK(t, s.empty(), s);
    t.nontrivial(common);
}
#endif
