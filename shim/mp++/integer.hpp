// Minimal, GMP-backed stand-in for mppp::integer (only what obake needs).
#ifndef MPPP_INTEGER_HPP
#define MPPP_INTEGER_HPP
#include <mp++/config.hpp>
#include <mp++/exceptions.hpp>
#include <mp++/type_name.hpp>

#include <cmath>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <gmp.h>

#include <fmt/core.h>
#include <fmt/format.h>

#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/tracking.hpp>

namespace mppp
{

template <typename T>
inline constexpr bool is_cpp_integral_v
    = (std::is_integral_v<T> && std::is_same_v<T, std::remove_cv_t<T>>) || std::is_same_v<T, __int128_t> || std::is_same_v<T, __uint128_t>;
template <typename T>
inline constexpr bool is_cpp_fp_v = std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>;
template <typename T>
concept cpp_integral = is_cpp_integral_v<T>;
template <typename T>
concept cpp_fp = is_cpp_fp_v<T>;
// Without MPFR, mp++ does not interoperate with long double.
template <typename T>
concept cpp_ifp = std::is_same_v<T, float> || std::is_same_v<T, double>;
template <typename T>
concept cpp_arithmetic = cpp_integral<T> || cpp_ifp<T>;

template <typename T>
inline constexpr bool shim_is_signed_v = std::is_same_v<T, __int128_t> || (std::is_signed_v<T> && !std::is_same_v<T, __uint128_t>);

namespace shim
{
// unsigned 128 bit -> mpz
inline void set_u128(mpz_t r, __uint128_t n)
{
    const std::uint64_t lo = static_cast<std::uint64_t>(n), hi = static_cast<std::uint64_t>(n >> 64);
    if (hi) {
        mpz_set_ui(r, hi);
        mpz_mul_2exp(r, r, 64);
        mpz_add_ui(r, r, lo);
    } else {
        mpz_set_ui(r, lo);
    }
}
template <cpp_integral T>
inline void set_int(mpz_t r, const T &n)
{
    if constexpr (sizeof(T) <= 8u) {
        if constexpr (shim_is_signed_v<T>) {
            mpz_set_si(r, static_cast<long>(n));
        } else {
            mpz_set_ui(r, static_cast<unsigned long>(n));
        }
    } else {
        if constexpr (shim_is_signed_v<T>) {
            const bool neg = n < 0;
            auto u = static_cast<__uint128_t>(n);
            if (neg) u = -u;
            set_u128(r, u);
            if (neg) mpz_neg(r, r);
        } else {
            set_u128(r, static_cast<__uint128_t>(n));
        }
    }
}
template <cpp_integral T>
inline bool get_int(T &out, const mpz_t n)
{
    if constexpr (std::is_same_v<T, bool>) {
        out = mpz_sgn(n) != 0;
        return true;
    } else {
        if (mpz_sizeinbase(n, 2) > 128u) return false;
        const int sgn = mpz_sgn(n);
        __uint128_t u = 0;
        const std::size_t sz = mpz_size(n);
        if (sz > 0u) u = mpz_getlimbn(n, 0);
        if (sz > 1u) u |= static_cast<__uint128_t>(mpz_getlimbn(n, 1)) << 64;
        constexpr __uint128_t one = 1;
        if constexpr (shim_is_signed_v<T>) {
            constexpr unsigned bits = sizeof(T) * 8u - 1u;
            if (sgn >= 0) {
                if (u > ((one << bits) - 1u)) return false;
                out = static_cast<T>(u);
            } else {
                if (u > (one << bits)) return false;
                out = static_cast<T>(static_cast<__int128_t>(-u));
            }
        } else {
            if (sgn < 0) return false;
            if constexpr (sizeof(T) < 16u) {
                if (u >= (one << (sizeof(T) * 8u))) return false;
            }
            out = static_cast<T>(u);
        }
        return true;
    }
}
template <cpp_fp T>
inline void set_fp(mpz_t r, const T &x)
{
    if (!std::isfinite(x)) throw std::domain_error("Cannot construct an integer from a non-finite floating-point value");
    if constexpr (std::is_same_v<T, long double>) {
        // Exact split.
        T t = std::trunc(x);
        int e;
        T m = std::frexp(std::fabs(t), &e);
        std::uint64_t mant = static_cast<std::uint64_t>(std::ldexp(m, 64));
        mpz_set_ui(r, mant);
        if (e >= 64) mpz_mul_2exp(r, r, static_cast<unsigned long>(e - 64));
        else mpz_tdiv_q_2exp(r, r, static_cast<unsigned long>(64 - e));
        if (t < 0) mpz_neg(r, r);
    } else {
        mpz_set_d(r, static_cast<double>(x));
    }
}
} // namespace shim

template <std::size_t SSize>
class integer
{
    static_assert(SSize > 0u);

public:
    static constexpr std::size_t ssize = SSize;

    integer()
    {
        mpz_init(m_z);
    }
    integer(const integer &o) : m_promoted(o.m_promoted)
    {
        mpz_init_set(m_z, o.m_z);
    }
    integer(integer &&o) noexcept : m_promoted(o.m_promoted)
    {
        mpz_init(m_z);
        mpz_swap(m_z, o.m_z);
    }
    template <cpp_integral T>
    explicit integer(const T &n)
    {
        mpz_init(m_z);
        shim::set_int(m_z, n);
    }
    template <cpp_ifp T>
    explicit integer(const T &x)
    {
        mpz_init(m_z);
        try {
            shim::set_fp(m_z, x);
        } catch (...) {
            mpz_clear(m_z);
            throw;
        }
    }
    explicit integer(const char *s, int base = 10)
    {
        if (mpz_init_set_str(m_z, s, base) != 0) {
            mpz_clear(m_z);
            throw std::invalid_argument(std::string("The string '") + s + "' is not a valid integer in base "
                                        + std::to_string(base));
        }
    }
    explicit integer(const std::string &s, int base = 10) : integer(s.c_str(), base) {}
    explicit integer(const mpz_t n)
    {
        mpz_init_set(m_z, n);
    }
    ~integer()
    {
        mpz_clear(m_z);
    }
    integer &operator=(const integer &o)
    {
        mpz_set(m_z, o.m_z);
        return *this;
    }
    integer &operator=(integer &&o) noexcept
    {
        mpz_swap(m_z, o.m_z);
        return *this;
    }
    template <cpp_integral T>
    integer &operator=(const T &n)
    {
        shim::set_int(m_z, n);
        return *this;
    }
    template <cpp_ifp T>
    integer &operator=(const T &x)
    {
        shim::set_fp(m_z, x);
        return *this;
    }
    integer &operator=(const std::string &s)
    {
        return *this = integer(s);
    }
    integer &operator=(const char *s)
    {
        return *this = integer(s);
    }

    template <cpp_integral T>
    explicit operator T() const
    {
        T r{};
        if (!shim::get_int(r, m_z)) {
            throw std::overflow_error("The conversion of the integer " + to_string() + " to the type '" + type_name<T>()
                                      + "' results in overflow");
        }
        return r;
    }
    template <cpp_ifp T>
    explicit operator T() const
    {
        if constexpr (std::is_same_v<T, long double>) {
            long double r = 0;
            for (std::size_t i = mpz_size(m_z); i > 0u; --i) {
                r = std::ldexp(r, 64) + static_cast<long double>(mpz_getlimbn(m_z, static_cast<mp_size_t>(i - 1u)));
            }
            return mpz_sgn(m_z) < 0 ? -r : r;
        } else {
            return static_cast<T>(mpz_get_d(m_z));
        }
    }
    template <cpp_integral T>
    bool get(T &out) const
    {
        return shim::get_int(out, m_z);
    }
    template <cpp_ifp T>
    bool get(T &out) const
    {
        out = static_cast<T>(*this);
        return true;
    }

    std::string to_string(int base = 10) const
    {
        std::string s(mpz_sizeinbase(m_z, base) + 2u, '\0');
        mpz_get_str(s.data(), base, m_z);
        s.resize(std::char_traits<char>::length(s.c_str()));
        return s;
    }
    bool is_static() const
    {
        return !m_promoted && mpz_size(m_z) <= SSize;
    }
    std::size_t size() const
    {
        return mpz_size(m_z);
    }
    std::size_t nbits() const
    {
        return mpz_sgn(m_z) ? mpz_sizeinbase(m_z, 2) : 0u;
    }
    int sgn() const
    {
        return mpz_sgn(m_z);
    }
    bool is_zero() const
    {
        return mpz_sgn(m_z) == 0;
    }
    bool is_one() const
    {
        return mpz_cmp_si(m_z, 1) == 0;
    }
    bool is_negative_one() const
    {
        return mpz_cmp_si(m_z, -1) == 0;
    }
    bool odd_p() const
    {
        return mpz_odd_p(m_z) != 0;
    }
    bool even_p() const
    {
        return mpz_even_p(m_z) != 0;
    }
    integer &neg()
    {
        mpz_neg(m_z, m_z);
        return *this;
    }
    integer &abs()
    {
        mpz_abs(m_z, m_z);
        return *this;
    }
    integer &promote()
    {
        m_promoted = true;
        return *this;
    }
    mpz_ptr get_mpz_t()
    {
        return m_z;
    }
    mpz_srcptr get_mpz_view() const
    {
        return m_z;
    }

    integer operator+() const
    {
        return *this;
    }
    integer operator-() const
    {
        integer r(*this);
        r.neg();
        return r;
    }
    integer &operator++()
    {
        mpz_add_ui(m_z, m_z, 1);
        return *this;
    }
    integer &operator--()
    {
        mpz_sub_ui(m_z, m_z, 1);
        return *this;
    }
    integer operator++(int)
    {
        integer r(*this);
        ++*this;
        return r;
    }
    integer operator--(int)
    {
        integer r(*this);
        --*this;
        return r;
    }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        const std::string s = to_string();
        ar << s;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        std::string s;
        ar >> s;
        *this = integer(s);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

    mpz_t m_z;
    bool m_promoted = false;
};

namespace shim
{
template <typename T>
struct is_integer : std::false_type {
};
template <std::size_t S>
struct is_integer<integer<S>> : std::true_type {
};
template <typename T>
inline constexpr bool is_integer_v = is_integer<T>::value;

// Operand pairs in which at least one is integer<S> and the other is integer<S> or C++ arithmetic.
template <typename T, typename U>
struct int_pair {
    static constexpr bool value = false;
};
template <std::size_t S>
struct int_pair<integer<S>, integer<S>> {
    static constexpr bool value = true;
    using type = integer<S>;
};
template <std::size_t S, cpp_integral U>
struct int_pair<integer<S>, U> {
    static constexpr bool value = true;
    using type = integer<S>;
};
template <std::size_t S, cpp_ifp U>
struct int_pair<integer<S>, U> {
    static constexpr bool value = true;
    using type = U;
};
template <std::size_t S, cpp_integral U>
struct int_pair<U, integer<S>> {
    static constexpr bool value = true;
    using type = integer<S>;
};
template <std::size_t S, cpp_ifp U>
struct int_pair<U, integer<S>> {
    static constexpr bool value = true;
    using type = U;
};
template <typename T, typename U>
concept int_ops = int_pair<T, U>::value;
template <typename T, typename U>
using int_ret_t = typename int_pair<T, U>::type;

// View x as an R, avoiding copies when possible.
template <typename R, typename T>
inline decltype(auto) as(const T &x)
{
    if constexpr (std::is_same_v<R, T>) {
        return (x);
    } else {
        return static_cast<R>(x);
    }
}
} // namespace shim

#define MPPP_SHIM_INT_BINOP(op, mpzop)                                                                                 \
    template <typename T, typename U>                                                                                  \
        requires shim::int_ops<T, U>                                                                                   \
    inline shim::int_ret_t<T, U> operator op(const T &a, const U &b)                                                   \
    {                                                                                                                  \
        using R = shim::int_ret_t<T, U>;                                                                               \
        const auto &x = shim::as<R>(a);                                                                                \
        const auto &y = shim::as<R>(b);                                                                                \
        if constexpr (cpp_fp<R>) {                                                                                     \
            return x op y;                                                                                             \
        } else {                                                                                                       \
            R r;                                                                                                       \
            mpzop(r.get_mpz_t(), x.get_mpz_view(), y.get_mpz_view());                                                  \
            return r;                                                                                                  \
        }                                                                                                              \
    }

MPPP_SHIM_INT_BINOP(+, mpz_add)
MPPP_SHIM_INT_BINOP(-, mpz_sub)
MPPP_SHIM_INT_BINOP(*, mpz_mul)
#undef MPPP_SHIM_INT_BINOP

template <typename T, typename U>
    requires shim::int_ops<T, U>
inline shim::int_ret_t<T, U> operator/(const T &a, const U &b)
{
    using R = shim::int_ret_t<T, U>;
    const auto &x = shim::as<R>(a);
    const auto &y = shim::as<R>(b);
    if constexpr (cpp_fp<R>) {
        return x / y;
    } else {
        if (y.sgn() == 0) throw zero_division_error("Integer division by zero");
        R r;
        mpz_tdiv_q(r.get_mpz_t(), x.get_mpz_view(), y.get_mpz_view());
        return r;
    }
}
template <typename T, typename U>
    requires(shim::int_ops<T, U> && !cpp_fp<T> && !cpp_fp<U>)
inline shim::int_ret_t<T, U> operator%(const T &a, const U &b)
{
    using R = shim::int_ret_t<T, U>;
    const auto &x = shim::as<R>(a);
    const auto &y = shim::as<R>(b);
    if (y.sgn() == 0) throw zero_division_error("Integer division by zero");
    R r;
    mpz_tdiv_r(r.get_mpz_t(), x.get_mpz_view(), y.get_mpz_view());
    return r;
}
#define MPPP_SHIM_INT_INPLACE(op)                                                                                      \
    template <typename T, typename U>                                                                                  \
        requires shim::int_ops<T, U>                                                                                   \
    inline T &operator op##=(T &a, const U &b)                                                                         \
    {                                                                                                                  \
        if constexpr (cpp_arithmetic<T>) {                                                                             \
            a = static_cast<T>(a op b);                                                                                \
        } else {                                                                                                       \
            a = a op b;                                                                                                \
        }                                                                                                              \
        return a;                                                                                                      \
    }
MPPP_SHIM_INT_INPLACE(+)
MPPP_SHIM_INT_INPLACE(-)
MPPP_SHIM_INT_INPLACE(*)
MPPP_SHIM_INT_INPLACE(/)
#undef MPPP_SHIM_INT_INPLACE
template <std::size_t S, typename U>
    requires(shim::int_ops<integer<S>, U> && !cpp_fp<U>)
inline integer<S> &operator%=(integer<S> &a, const U &b)
{
    return a = a % b;
}

template <std::size_t S, cpp_integral T>
inline integer<S> operator<<(const integer<S> &n, const T &s)
{
    integer<S> r;
    mpz_mul_2exp(r.get_mpz_t(), n.get_mpz_view(), static_cast<mp_bitcnt_t>(s));
    return r;
}
template <std::size_t S, cpp_integral T>
inline integer<S> operator>>(const integer<S> &n, const T &s)
{
    integer<S> r;
    mpz_fdiv_q_2exp(r.get_mpz_t(), n.get_mpz_view(), static_cast<mp_bitcnt_t>(s));
    return r;
}
template <std::size_t S, cpp_integral T>
inline integer<S> &operator<<=(integer<S> &n, const T &s)
{
    return n = n << s;
}
template <std::size_t S, cpp_integral T>
inline integer<S> &operator>>=(integer<S> &n, const T &s)
{
    return n = n >> s;
}

#define MPPP_SHIM_INT_CMP(op)                                                                                          \
    template <typename T, typename U>                                                                                  \
        requires shim::int_ops<T, U>                                                                                   \
    inline bool operator op(const T &a, const U &b)                                                                    \
    {                                                                                                                  \
        using R = shim::int_ret_t<T, U>;                                                                               \
        const auto &x = shim::as<R>(a);                                                                                \
        const auto &y = shim::as<R>(b);                                                                                \
        if constexpr (cpp_fp<R>) {                                                                                     \
            return x op y;                                                                                             \
        } else {                                                                                                       \
            return mpz_cmp(x.get_mpz_view(), y.get_mpz_view()) op 0;                                                   \
        }                                                                                                              \
    }
MPPP_SHIM_INT_CMP(==)
MPPP_SHIM_INT_CMP(!=)
MPPP_SHIM_INT_CMP(<)
MPPP_SHIM_INT_CMP(<=)
MPPP_SHIM_INT_CMP(>)
MPPP_SHIM_INT_CMP(>=)
#undef MPPP_SHIM_INT_CMP

template <std::size_t S>
inline std::ostream &operator<<(std::ostream &os, const integer<S> &n)
{
    return os << n.to_string();
}

template <std::size_t S>
inline integer<S> &addmul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    mpz_addmul(r.get_mpz_t(), a.get_mpz_view(), b.get_mpz_view());
    return r;
}
template <std::size_t S>
inline integer<S> &submul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    mpz_submul(r.get_mpz_t(), a.get_mpz_view(), b.get_mpz_view());
    return r;
}
template <cpp_arithmetic T, std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    return n.get(out);
}
template <std::size_t S>
inline int sgn(const integer<S> &n)
{
    return n.sgn();
}
template <std::size_t S>
inline integer<S> abs(const integer<S> &n)
{
    integer<S> r(n);
    r.abs();
    return r;
}
template <std::size_t S>
inline bool is_zero(const integer<S> &n)
{
    return n.is_zero();
}
template <std::size_t S>
inline bool is_one(const integer<S> &n)
{
    return n.is_one();
}
template <std::size_t S>
inline integer<S> gcd(const integer<S> &a, const integer<S> &b)
{
    integer<S> r;
    mpz_gcd(r.get_mpz_t(), a.get_mpz_view(), b.get_mpz_view());
    return r;
}
template <std::size_t S>
inline std::size_t hash(const integer<S> &n)
{
    std::size_t r = static_cast<std::size_t>(static_cast<long>(n.size()) * n.sgn());
    for (std::size_t i = 0; i < n.size(); ++i) {
        r ^= mpz_getlimbn(n.get_mpz_view(), static_cast<mp_size_t>(i)) + 0x9e3779b9u + (r << 6) + (r >> 2);
    }
    return r;
}
template <std::size_t S>
inline integer<S> pow_ui(const integer<S> &b, unsigned long e)
{
    integer<S> r;
    mpz_pow_ui(r.get_mpz_t(), b.get_mpz_view(), e);
    return r;
}
template <typename T, typename U>
    requires shim::int_ops<T, U>
inline shim::int_ret_t<T, U> pow(const T &b_, const U &e_)
{
    using R = shim::int_ret_t<T, U>;
    if constexpr (cpp_fp<R>) {
        return std::pow(static_cast<R>(b_), static_cast<R>(e_));
    } else {
        const auto &b = shim::as<R>(b_);
        const auto &e = shim::as<R>(e_);
        unsigned long ue;
        if (e.sgn() >= 0 && e.get(ue)) return pow_ui(b, ue);
        if (e.is_zero()) return R(1);
        if (b.is_zero()) {
            if (e.sgn() > 0) return R(0);
            throw zero_division_error("Cannot exponentiate zero to a negative power");
        }
        if (b.is_one()) return R(1);
        if (b.is_negative_one()) return e.odd_p() ? R(-1) : R(1);
        if (e.sgn() > 0) throw std::overflow_error("Exponent too large in integer exponentiation");
        return R(0);
    }
}
} // namespace mppp

namespace std
{
template <std::size_t S>
struct hash<mppp::integer<S>> {
    std::size_t operator()(const mppp::integer<S> &n) const
    {
        return mppp::hash(n);
    }
};
} // namespace std

template <std::size_t S>
struct fmt::formatter<mppp::integer<S>> : fmt::formatter<std::string> {
    template <typename Ctx>
    auto format(const mppp::integer<S> &n, Ctx &ctx) const
    {
        return fmt::format_to(ctx.out(), "{}", n.to_string());
    }
};

#endif
