// U02: the pseudo-random generator.
#include <pbt.hpp>

#include <cstdint>
#include <limits>
#include <random>
#include <type_traits>

#include <obake/detail/xoroshiro128_plus.hpp>

#include "zint.hpp"

using namespace zi;
using rng_t = obake::detail::xoroshiro128_plus;

namespace
{

// The published algorithm, with arithmetic on bit strings of GMP.
struct ref {
    mpz_class s0, s1;
    static mpz_class mod(const mpz_class &x)
    {
        mpz_class r;
        mpz_fdiv_r_2exp(r.get_mpz_t(), x.get_mpz_t(), 64);
        return r;
    }
    static mpz_class rot(const mpz_class &x, unsigned k)
    {
        mpz_class hi = mod(x << k), lo = x >> (64 - k);
        return hi + lo;
    }
    std::uint64_t next()
    {
        const mpz_class r = mod(s0 + s1);
        mpz_class a = s0, b = s0 ^ s1;
        s0 = rot(a, 24) ^ b ^ mod(b << 16);
        s1 = rot(b, 37);
        return from_z<std::uint64_t>(r);
    }
};

} // namespace

PBT_SUB(sequence, 60000, 2000000,
        "seeds of all kinds and sequences of draws of random types (8 to 128 bits, signed and unsigned, raw, call operator): "
        "every value and the final state are those of the published xoroshiro128+ algorithm; non-trivial: a 128-bit draw and "
        "at least five draws")
{
    const auto a = t.edgy<std::uint64_t>(), b = t.edgy<std::uint64_t>();
    rng_t g(a, b);
    ref r{Z(a), Z(b)};
    const auto n = 1 + t.below(24);
    bool wide = false;
    for (std::uint64_t i = 0; i < n; ++i) {
        switch (t.below(5)) {
            case 0:
                PBT_CHECK(t, g.next() == r.next());
                break;
            case 1:
                PBT_CHECK(t, g() == r.next());
                break;
            case 2: {
                rng_t h(g);
                const auto x = h.next();
                PBT_CHECK(t, x == g.next());
                PBT_CHECK(t, x == r.next());
                break;
            }
            default:
                standard::pick(t, [&](auto tg) {
                    using I = typename decltype(tg)::type;
                    const I x = g.random<I>();
                    __uint128_t w = r.next();
                    if (sizeof(I) == 16) {
                        wide = true;
                        w = (w << 64) | r.next();
                    }
                    PBT_CHECK(t, x == static_cast<I>(w), "got ", S(x), " want ", S(static_cast<I>(w)));
                });
        }
        PBT_CHECK(t, Z(g.m_state[0]) == r.s0 && Z(g.m_state[1]) == r.s1, "state after step ", i);
    }
    t.nontrivial(wide && n >= 5);
}

PBT_SUB(rotation, 200000, 4000000,
        "left rotations of 64-bit values by 1 to 63 places, and back; non-trivial: the value has more than one bit set")
{
    const auto x = t.edgy<std::uint64_t>();
    const auto k = static_cast<int>(1 + t.below(63));
    const auto y = rng_t::rotl(x, k);
    t.nontrivial((x & (x - 1)) != 0);
    for (int i = 0; i < 64; ++i) {
        PBT_CHECK(t, ((x >> i) & 1) == ((y >> ((i + k) % 64)) & 1), "bit ", i, " rotated by ", k);
    }
    PBT_CHECK(t, rng_t::rotl(y, 64 - k) == x);
}

PBT_SUB(standard_interface, 40000, 1000000,
        "use as a uniform random bit generator in standard distributions: results stay in the requested range, and a whole-"
        "range distribution returns the raw values; every bit of random values of every type varies; non-trivial: always")
{
    t.nontrivial();
    const auto a = t.raw64(), b = t.raw64() | 1u;
    rng_t g(a, b), h(a, b);
    PBT_CHECK(t, (std::is_same_v<rng_t::result_type, std::uint64_t>), "type");
    const std::uint64_t mn = rng_t::min(), mx = rng_t::max();
    PBT_CHECK(t, mn == 0 && mx == std::numeric_limits<std::uint64_t>::max());
    std::uniform_int_distribution<std::uint64_t> full(0, std::numeric_limits<std::uint64_t>::max());
    for (int i = 0; i < 4; ++i) PBT_CHECK(t, full(g) == h.next());
    const auto lo = t.sym(1000000);
    const auto hi = lo + static_cast<std::int64_t>(t.below(1000));
    std::uniform_int_distribution<std::int64_t> dist(lo, hi);
    for (int i = 0; i < 8; ++i) {
        const auto v = dist(g);
        PBT_CHECK(t, v >= lo && v <= hi);
    }
    // Each bit must take both values in 128 draws (probability of failure of one case below 2^-119).
    standard::pick(t, [&](auto tg) {
        using I = typename decltype(tg)::type;
        // A fixed good seed, advanced: the claim is about the mapping, not the seed.
        rng_t s(0x9e3779b97f4a7c15ull, 0xbf58476d1ce4e5b9ull ^ (a >> 32));
        for (int i = 0; i < 32; ++i) s.next();
        __uint128_t ones = 0, zeros = 0;
        for (int i = 0; i < 128; ++i) {
            const auto v = static_cast<__uint128_t>(s.random<I>());
            ones |= v;
            zeros |= ~v;
        }
        for (unsigned i = 0; i < bits_of<I>; ++i) {
            PBT_CHECK(t, ((ones >> i) & 1) && ((zeros >> i) & 1), "bit ", i, " of ", sizeof(I), " bytes");
        }
    });
}
