// Arbitrary integers (GMP) as the oracle for machine integers, and dispatch over the integral types.
#ifndef ZINT_HPP
#define ZINT_HPP

#include <cstdint>
#include <string>
#include <type_traits>

#include <gmpxx.h>

#include <pbt.hpp>

namespace zi
{

template <typename I>
constexpr bool is_neg_type = static_cast<I>(-1) < static_cast<I>(0);

// The exact value, through the bytes of the object.
template <typename I>
mpz_class Z(I x)
{
    using U = __uint128_t;
    const bool neg = x < static_cast<I>(0);
    // Two's complement on 128 bits.
    U u = neg ? U(0) - static_cast<U>(static_cast<__int128_t>(x)) : static_cast<U>(x);
    const std::uint64_t w[2] = {static_cast<std::uint64_t>(u), static_cast<std::uint64_t>(u >> 64)};
    mpz_class r;
    mpz_import(r.get_mpz_t(), 2, -1, 8, 0, 0, w);
    return neg ? mpz_class(-r) : r;
}

template <typename I>
constexpr unsigned bits_of = std::is_same_v<I, bool> ? 1u : static_cast<unsigned>(sizeof(I) * 8u);

template <typename I>
mpz_class zmin()
{
    if (std::is_same_v<I, bool> || !is_neg_type<I>) return 0;
    mpz_class r = 1;
    r <<= bits_of<I> - 1u;
    return -r;
}

template <typename I>
mpz_class zmax()
{
    mpz_class r = 1;
    r <<= (std::is_same_v<I, bool> || !is_neg_type<I>) ? bits_of<I> : bits_of<I> - 1u;
    return r - 1;
}

template <typename I>
bool fits(const mpz_class &z)
{
    return z >= zmin<I>() && z <= zmax<I>();
}

// Only when it fits.
template <typename I>
I from_z(const mpz_class &z)
{
    std::uint64_t w[2] = {0, 0};
    mpz_class a = abs(z);
    mpz_export(w, nullptr, -1, 8, 0, 0, a.get_mpz_t());
    const auto u = (static_cast<__uint128_t>(w[1]) << 64) | w[0];
    return static_cast<I>(z < 0 ? __uint128_t(0) - u : u);
}

template <typename I>
std::string S(I x)
{
    return Z(x).get_str();
}

template <typename I>
I gen(pbt::T &t)
{
    if constexpr (std::is_same_v<I, bool>) {
        return t.below(2) == 1;
    } else {
        return t.template edgy<I>();
    }
}

template <typename I>
struct tag {
    using type = I;
};

template <typename... Is>
struct list {
    // Calls f with the tag of one of the types.
    template <typename F>
    static void pick(pbt::T &t, F &&f)
    {
        const auto k = t.below(sizeof...(Is));
        std::size_t i = 0;
        ((i++ == k ? (f(tag<Is>{}), 0) : 0), ...);
    }
    template <typename F>
    static void all(F &&f)
    {
        (f(tag<Is>{}), ...);
    }
};

using standard = list<int, long long, short, signed char, char, long, unsigned, unsigned long, unsigned long long,
                      unsigned short, unsigned char, __int128_t, __uint128_t>;

} // namespace zi

namespace pbt
{
namespace detail
{
template <>
struct uns<char> {
    using type = unsigned char;
};
} // namespace detail
} // namespace pbt

#endif
