// K01: Kronecker packing is a bijection between the vectors within the limits and the coded range, and is additive.
#include <pbt.hpp>

#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

#include <obake/kpack.hpp>

namespace
{

using i128 = __int128_t;

// The maximum sizes are part of the documented interface.
template <typename I>
constexpr unsigned max_size = sizeof(I) == 4u ? 10u : 21u;

template <typename I>
struct limits_of {
    I lmin, lmax, kmin, kmax;
    explicit limits_of(unsigned n)
    {
        const auto l = obake::detail::kpack_get_lims<I>(n);
        const auto k = obake::detail::kpack_get_klims<I>(n);
        lmin = l.first;
        lmax = l.second;
        kmin = k.first;
        kmax = k.second;
    }
};

// The weight of a component, derived from the limits: consecutive weights differ by the number of values of a component.
template <typename I>
i128 weight(unsigned n, unsigned i)
{
    const limits_of<I> l(n);
    const i128 width = i128(l.lmax) - l.lmin + 1;
    i128 w = 1;
    for (unsigned j = 0; j < i; ++j) w *= width;
    return w;
}

template <typename I>
std::string show(const std::vector<I> &v)
{
    std::string s;
    for (auto x : v) s += std::to_string(x) + " ";
    return s;
}

template <typename I>
I gen_component(pbt::T &t, const limits_of<I> &l)
{
    switch (t.below(6)) {
        case 0:
            return I(0);
        case 1:
            return l.lmax;
        case 2:
            return l.lmin;
        case 3:
            return static_cast<I>(l.lmax - static_cast<I>(t.below(l.lmax < 4 ? 2 : 4)));
        case 4:
            return static_cast<I>(l.lmin + static_cast<I>(t.below(l.lmax < 4 ? 2 : 4)));
        default:
            return t.range(l.lmin, l.lmax);
    }
}

template <typename I>
i128 coded(const std::vector<I> &v, unsigned n)
{
    i128 r = 0;
    for (unsigned i = 0; i < v.size(); ++i) r += weight<I>(n, i) * v[i];
    return r;
}

template <typename I>
std::vector<I> unpack(pbt::T &t, I v, unsigned n)
{
    obake::kunpacker<I> ku(v, n);
    std::vector<I> r;
    for (unsigned i = 0; i < n; ++i) {
        I x = 0;
        auto &ref = (ku >> x);
        PBT_CHECK(t, &ref == &ku);
        r.push_back(x);
    }
    return r;
}

template <typename I>
void round_trip(pbt::T &t)
{
    const auto n = 1u + static_cast<unsigned>(t.below(max_size<I>));
    const limits_of<I> l(n);
    PBT_CHECK(t, (std::is_signed_v<I> ? i128(l.lmin) == -i128(l.lmax) : l.lmin == I(0)) && l.lmax > 0);
    std::vector<I> v;
    // Fewer values than the size are as good as zeros for the rest.
    const auto m = t.below(4) == 0 ? static_cast<unsigned>(t.below(n + 1u)) : n;
    for (unsigned i = 0; i < m; ++i) v.push_back(gen_component<I>(t, l));
    t.nontrivial(n > 1 && m > 1);
    PBT_LOG(t, "size ", n, ": ", show(v));
    obake::kpacker<I> kp(n);
    PBT_CHECK(t, kp.get() == I(0));
    for (unsigned i = 0; i < m; ++i) {
        if (t.below(16) == 0) {
            // A value out of range is refused, without consequences.
            const auto before = kp.get();
            if (l.lmax < std::numeric_limits<I>::max()) {
                const I bad = t.below(2) ? static_cast<I>(l.lmax + 1) : t.range(static_cast<I>(l.lmax + 1), std::numeric_limits<I>::max());
                PBT_THROWS(t, std::overflow_error, kp << bad, " size ", n, " value ", bad);
            }
            if constexpr (std::is_signed_v<I>) {
                const I bad = t.below(2) ? static_cast<I>(l.lmin - 1) : t.range(std::numeric_limits<I>::min(), static_cast<I>(l.lmin - 1));
                PBT_THROWS(t, std::overflow_error, kp << bad, " size ", n, " value ", bad);
            }
            PBT_CHECK(t, kp.get() == before);
        }
        auto &ref = (kp << v[i]);
        PBT_CHECK(t, &ref == &kp);
    }
    auto copy = kp;
    if (m == n) {
        PBT_THROWS(t, std::out_of_range, kp << I(0));
        PBT_CHECK(t, kp.get() == copy.get());
    }
    const I code = kp.get();
    PBT_CHECK(t, i128(code) == coded(v, n), "size ", n, ": ", show(v), " code ", code);
    PBT_CHECK(t, code >= l.kmin && code <= l.kmax, code);
    v.resize(n, I(0));
    const auto u = unpack<I>(t, code, n);
    PBT_CHECK(t, u == v, "size ", n, ": ", show(v), " came back as ", show(u));
    obake::kunpacker<I> ku(code, n);
    I x = 0;
    for (unsigned i = 0; i < n; ++i) ku >> x;
    PBT_THROWS(t, std::out_of_range, ku >> x);
    PBT_CHECK(t, x == v.back());
}

// Codes: near multiples of a weight, where a division goes wrong first.
template <typename I>
void codes(pbt::T &t)
{
    const auto n = 1u + static_cast<unsigned>(t.below(max_size<I>));
    const limits_of<I> l(n);
    // All vectors at the limits have the codes at the limits.
    i128 mx = 0, mn = 0;
    for (unsigned i = 0; i < n; ++i) {
        mx += weight<I>(n, i) * l.lmax;
        mn += weight<I>(n, i) * l.lmin;
    }
    PBT_CHECK(t, mx == l.kmax && mn == l.kmin, "size ", n);
    const i128 span = i128(l.kmax) - l.kmin;
    i128 off = 0;
    switch (t.below(5)) {
        case 0:
            off = static_cast<i128>(t.below(4));
            break;
        case 1:
            off = span - static_cast<i128>(t.below(4));
            break;
        case 2:
            off = static_cast<i128>(t.raw64()) % (span + 1);
            break;
        default: {
            // k * weight + {-1, 0, 1}, k often as large as possible.
            const auto w = weight<I>(n, 1u + static_cast<unsigned>(t.below(n)));
            const auto km = span / w;
            auto k = static_cast<i128>(t.raw64()) % (km + 1);
            if (t.below(2)) k = km - static_cast<i128>(t.below(3));
            if (k < 0) k = 0;
            off = k * w + static_cast<i128>(t.sym(1));
        }
    }
    if (off < 0) off = 0;
    if (off > span) off = span;
    const I code = static_cast<I>(l.kmin + off);
    t.nontrivial(n > 1 && off > 0 && off < span);
    PBT_LOG(t, "size ", n, " code ", code);
    const auto u = unpack<I>(t, code, n);
    // The components, from exact arithmetic.
    i128 rest = off;
    for (unsigned i = 0; i < n; ++i) {
        const i128 width = i128(l.lmax) - l.lmin + 1;
        PBT_CHECK(t, i128(u[i]) - l.lmin == rest % width, "size ", n, " code ", code, " component ", i, " is ", u[i]);
        rest /= width;
    }
    PBT_CHECK(t, coded(u, n) == code);
    obake::kpacker<I> kp(n);
    for (auto x : u) kp << x;
    PBT_CHECK(t, kp.get() == code);
}

template <typename I>
void additive(pbt::T &t)
{
    const auto n = 1u + static_cast<unsigned>(t.below(max_size<I>));
    const limits_of<I> l(n);
    obake::kpacker<I> a(n), b(n), s(n);
    bool fits = true;
    std::vector<I> va, vb;
    for (unsigned i = 0; i < n; ++i) {
        const I x = gen_component<I>(t, l);
        I y = gen_component<I>(t, l);
        // Usually within the limits.
        if (i128(x) + y > l.lmax || i128(x) + y < l.lmin) {
            y = x > 0 ? static_cast<I>(l.lmax - x) : static_cast<I>(l.lmin - x);
        }
        va.push_back(x);
        vb.push_back(y);
    }
    (void)fits;
    for (unsigned i = 0; i < n; ++i) {
        a << va[i];
        b << vb[i];
        s << static_cast<I>(va[i] + vb[i]);
    }
    t.nontrivial(n > 1);
    PBT_CHECK(t, i128(a.get()) + b.get() == s.get(), "size ", n, ": ", show(va), "+ ", show(vb));
    std::vector<I> vs;
    for (unsigned i = 0; i < n; ++i) vs.push_back(static_cast<I>(va[i] + vb[i]));
    PBT_CHECK(t, unpack<I>(t, static_cast<I>(a.get() + b.get()), n) == vs);
    // Distinct vectors have distinct codes.
    PBT_CHECK(t, (a.get() == b.get()) == (va == vb));
}

template <typename I>
void refusals(pbt::T &t)
{
    const auto n = static_cast<unsigned>(t.below(max_size<I> + 1u));
    if (t.below(2)) {
        const auto big = t.below(2) ? max_size<I> + 1u + static_cast<unsigned>(t.below(4)) : t.range(max_size<I> + 1u, ~0u);
        t.nontrivial();
        PBT_THROWS(t, std::overflow_error, obake::kpacker<I>(big), " size ", big);
        PBT_THROWS(t, std::overflow_error, obake::kunpacker<I>(I(0), big), " size ", big);
    }
    if (n == 0u) {
        obake::kpacker<I> kp(0);
        PBT_CHECK(t, kp.get() == I(0));
        PBT_THROWS(t, std::out_of_range, kp << I(0));
        PBT_THROWS(t, std::out_of_range, kp << I(1));
        PBT_CHECK(t, kp.get() == I(0));
        obake::kunpacker<I> ku(I(0), 0);
        I x = 5;
        PBT_THROWS(t, std::out_of_range, ku >> x);
        PBT_CHECK(t, x == 5);
        const I v = t.edgy<I>();
        if (v != I(0)) {
            PBT_THROWS(t, std::invalid_argument, obake::kunpacker<I>(v, 0));
        }
        return;
    }
    const limits_of<I> l(n);
    const I v = t.below(2) ? t.edgy<I>()
                           : static_cast<I>((t.below(2) ? l.kmax : l.kmin) + static_cast<I>(t.sym(2)));
    PBT_LOG(t, "size ", n, " code ", v);
    if (v > l.kmax || v < l.kmin) {
        t.nontrivial();
        PBT_THROWS(t, std::overflow_error, obake::kunpacker<I>(v, n), " size ", n, " code ", v);
    } else {
        obake::kunpacker<I> ku(v, n);
        I x;
        for (unsigned i = 0; i < n; ++i) {
            ku >> x;
            PBT_CHECK(t, x >= l.lmin && x <= l.lmax);
        }
    }
}

} // namespace

#define BY_TYPE(f)                                                                                                     \
    switch (t.below(4)) {                                                                                              \
        case 0:                                                                                                        \
            f<std::int32_t>(t);                                                                                        \
            break;                                                                                                     \
        case 1:                                                                                                        \
            f<std::uint32_t>(t);                                                                                       \
            break;                                                                                                     \
        case 2:                                                                                                        \
            f<std::int64_t>(t);                                                                                        \
            break;                                                                                                     \
        default:                                                                                                       \
            f<std::uint64_t>(t);                                                                                       \
    }

PBT_SUB(round_trip, 400000, 20000000,
        "vectors of up to the maximum number of values, biased to the limits, of all four integral types, packed (with "
        "refused values in between) and unpacked; the code is the weighted sum; non-trivial: at least two values")
{
    BY_TYPE(round_trip)
}

PBT_SUB(codes, 600000, 40000000,
        "codes over the whole range, biased to the neighbourhood of the multiples of the weights, unpacked and compared "
        "with exact division, then packed again; non-trivial: at least two components, code inside the range")
{
    BY_TYPE(codes)
}

PBT_SUB(additive, 300000, 10000000,
        "two vectors whose sum is within the limits: the sum of the codes is the code of the sum, and codes are equal "
        "exactly when the vectors are; non-trivial: at least two values")
{
    BY_TYPE(additive)
}

PBT_SUB(refusals, 200000, 5000000,
        "sizes above the maximum, codes outside the range, nonzero codes of size zero, too many values; non-trivial: the "
        "request is invalid")
{
    BY_TYPE(refusals)
}
