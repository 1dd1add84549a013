// Minimal, GMP-backed stand-in for mppp::rational (only what obake needs).
#ifndef MPPP_RATIONAL_HPP
#define MPPP_RATIONAL_HPP
#include <mp++/integer.hpp>

namespace mppp
{

template <std::size_t SSize>
class rational
{
public:
    using int_t = integer<SSize>;

    rational() : m_den(1) {}
    rational(const rational &) = default;
    rational(rational &&o) noexcept : m_num(std::move(o.m_num)), m_den(std::move(o.m_den))
    {
        // Keep the moved-from object in a valid state.
        o.m_num = 0;
        o.m_den = 1;
    }
    rational &operator=(const rational &) = default;
    rational &operator=(rational &&o) noexcept
    {
        std::swap(m_num, o.m_num);
        std::swap(m_den, o.m_den);
        return *this;
    }
    ~rational() = default;

    template <cpp_integral T>
    explicit rational(const T &n) : m_num(n), m_den(1)
    {
    }
    explicit rational(const int_t &n) : m_num(n), m_den(1) {}
    explicit rational(int_t &&n) : m_num(std::move(n)), m_den(1) {}
    template <cpp_ifp T>
    explicit rational(const T &x) : m_den(1)
    {
        if (!std::isfinite(x)) throw std::domain_error("Cannot construct a rational from a non-finite floating-point value");
        int e;
        auto m = std::frexp(x, &e);
        m = std::ldexp(m, 64);
        e -= 64;
        m_num = m;
        if (e >= 0) m_num <<= e;
        else m_den <<= -e;
        canonicalise();
    }
    template <typename T, typename U>
        requires((cpp_integral<T> || std::is_same_v<T, int_t>) && (cpp_integral<U> || std::is_same_v<U, int_t>))
    explicit rational(const T &n, const U &d, bool make_canonical = true) : m_num(n), m_den(d)
    {
        if (m_den.is_zero()) throw zero_division_error("Cannot construct a rational with zero as denominator");
        if (make_canonical) canonicalise();
    }
    explicit rational(const std::string &s, int base = 10) : m_den(1)
    {
        const auto p = s.find('/');
        if (p == std::string::npos) {
            m_num = int_t(s, base);
        } else {
            m_num = int_t(s.substr(0, p), base);
            m_den = int_t(s.substr(p + 1u), base);
            if (m_den.is_zero()) throw zero_division_error("A zero denominator was detected in a rational string");
            canonicalise();
        }
    }
    explicit rational(const char *s, int base = 10) : rational(std::string(s), base) {}

    template <cpp_arithmetic T>
    rational &operator=(const T &x)
    {
        return *this = rational(x);
    }
    rational &operator=(const int_t &n)
    {
        m_num = n;
        m_den = 1;
        return *this;
    }
    rational &operator=(const std::string &s)
    {
        return *this = rational(s);
    }

    template <cpp_integral T>
    explicit operator T() const
    {
        return static_cast<T>(m_num / m_den);
    }
    template <cpp_ifp T>
    explicit operator T() const
    {
        if constexpr (std::is_same_v<T, long double>) {
            return static_cast<T>(m_num) / static_cast<T>(m_den);
        } else {
            mpq_t q;
            mpq_init(q);
            mpz_set(mpq_numref(q), m_num.get_mpz_view());
            mpz_set(mpq_denref(q), m_den.get_mpz_view());
            const double d = mpq_get_d(q);
            mpq_clear(q);
            return static_cast<T>(d);
        }
    }
    explicit operator int_t() const
    {
        return m_num / m_den;
    }

    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int_t &_get_num()
    {
        return m_num;
    }
    int_t &_get_den()
    {
        return m_den;
    }
    rational &canonicalise()
    {
        if (m_num.is_zero()) {
            m_den = 1;
            return *this;
        }
        const auto g = gcd(m_num, m_den);
        if (!g.is_one()) {
            mpz_divexact(m_num.get_mpz_t(), m_num.get_mpz_view(), g.get_mpz_view());
            mpz_divexact(m_den.get_mpz_t(), m_den.get_mpz_view(), g.get_mpz_view());
        }
        if (m_den.sgn() < 0) {
            m_num.neg();
            m_den.neg();
        }
        return *this;
    }
    int sgn() const
    {
        return m_num.sgn();
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    bool is_zero() const
    {
        return m_num.is_zero();
    }
    bool is_one() const
    {
        return m_num.is_one() && m_den.is_one();
    }
    rational operator-() const
    {
        rational r(*this);
        r.neg();
        return r;
    }
    rational operator+() const
    {
        return *this;
    }
    std::string to_string() const
    {
        return m_den.is_one() ? m_num.to_string() : m_num.to_string() + "/" + m_den.to_string();
    }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        const std::string s = to_string();
        ar << s;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        std::string s;
        ar >> s;
        *this = rational(s);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

    int_t m_num, m_den;
};

namespace shim
{
template <typename T, typename U>
struct rat_pair {
    static constexpr bool value = false;
};
template <std::size_t S>
struct rat_pair<rational<S>, rational<S>> {
    static constexpr bool value = true;
    using type = rational<S>;
};
template <std::size_t S>
struct rat_pair<rational<S>, integer<S>> {
    static constexpr bool value = true;
    using type = rational<S>;
};
template <std::size_t S>
struct rat_pair<integer<S>, rational<S>> {
    static constexpr bool value = true;
    using type = rational<S>;
};
template <std::size_t S, cpp_integral U>
struct rat_pair<rational<S>, U> {
    static constexpr bool value = true;
    using type = rational<S>;
};
template <std::size_t S, cpp_ifp U>
struct rat_pair<rational<S>, U> {
    static constexpr bool value = true;
    using type = U;
};
template <std::size_t S, cpp_integral U>
struct rat_pair<U, rational<S>> {
    static constexpr bool value = true;
    using type = rational<S>;
};
template <std::size_t S, cpp_ifp U>
struct rat_pair<U, rational<S>> {
    static constexpr bool value = true;
    using type = U;
};
template <typename T, typename U>
concept rat_ops = rat_pair<T, U>::value;
template <typename T, typename U>
using rat_ret_t = typename rat_pair<T, U>::type;
} // namespace shim

#define MPPP_SHIM_RAT_BINOP(op, body)                                                                                  \
    template <typename T, typename U>                                                                                  \
        requires shim::rat_ops<T, U>                                                                                   \
    inline shim::rat_ret_t<T, U> operator op(const T &a, const U &b)                                                   \
    {                                                                                                                  \
        using R = shim::rat_ret_t<T, U>;                                                                               \
        const auto &x = shim::as<R>(a);                                                                                \
        const auto &y = shim::as<R>(b);                                                                                \
        if constexpr (cpp_fp<R>) {                                                                                     \
            return x op y;                                                                                             \
        } else {                                                                                                       \
            body                                                                                                       \
        }                                                                                                              \
    }
MPPP_SHIM_RAT_BINOP(+, return R(x.get_num() * y.get_den() + y.get_num() * x.get_den(), x.get_den() * y.get_den());)
MPPP_SHIM_RAT_BINOP(-, return R(x.get_num() * y.get_den() - y.get_num() * x.get_den(), x.get_den() * y.get_den());)
MPPP_SHIM_RAT_BINOP(*, return R(x.get_num() * y.get_num(), x.get_den() * y.get_den());)
MPPP_SHIM_RAT_BINOP(
    /, if (y.is_zero()) throw zero_division_error("Rational division by zero");
    return R(x.get_num() * y.get_den(), x.get_den() * y.get_num());)
#undef MPPP_SHIM_RAT_BINOP

#define MPPP_SHIM_RAT_INPLACE(op)                                                                                      \
    template <typename T, typename U>                                                                                  \
        requires shim::rat_ops<T, U>                                                                                   \
    inline T &operator op##=(T &a, const U &b)                                                                         \
    {                                                                                                                  \
        if constexpr (std::is_same_v<T, shim::rat_ret_t<T, U>>) {                                                      \
            a = a op b;                                                                                                \
        } else {                                                                                                       \
            a = static_cast<T>(a op b);                                                                                \
        }                                                                                                              \
        return a;                                                                                                      \
    }
MPPP_SHIM_RAT_INPLACE(+)
MPPP_SHIM_RAT_INPLACE(-)
MPPP_SHIM_RAT_INPLACE(*)
MPPP_SHIM_RAT_INPLACE(/)
#undef MPPP_SHIM_RAT_INPLACE

#define MPPP_SHIM_RAT_CMP(op)                                                                                          \
    template <typename T, typename U>                                                                                  \
        requires shim::rat_ops<T, U>                                                                                   \
    inline bool operator op(const T &a, const U &b)                                                                    \
    {                                                                                                                  \
        using R = shim::rat_ret_t<T, U>;                                                                               \
        const auto &x = shim::as<R>(a);                                                                                \
        const auto &y = shim::as<R>(b);                                                                                \
        if constexpr (cpp_fp<R>) {                                                                                     \
            return x op y;                                                                                             \
        } else {                                                                                                       \
            return x.get_num() * y.get_den() op y.get_num() * x.get_den();                                             \
        }                                                                                                              \
    }
MPPP_SHIM_RAT_CMP(==)
MPPP_SHIM_RAT_CMP(!=)
MPPP_SHIM_RAT_CMP(<)
MPPP_SHIM_RAT_CMP(<=)
MPPP_SHIM_RAT_CMP(>)
MPPP_SHIM_RAT_CMP(>=)
#undef MPPP_SHIM_RAT_CMP

template <std::size_t S>
inline std::ostream &operator<<(std::ostream &os, const rational<S> &q)
{
    return os << q.to_string();
}
template <std::size_t S>
inline bool is_zero(const rational<S> &q)
{
    return q.is_zero();
}
template <std::size_t S>
inline bool is_one(const rational<S> &q)
{
    return q.is_one();
}
template <std::size_t S>
inline int sgn(const rational<S> &q)
{
    return q.sgn();
}
template <std::size_t S>
inline rational<S> abs(const rational<S> &q)
{
    return q.sgn() < 0 ? -q : q;
}
template <std::size_t S>
inline std::size_t hash(const rational<S> &q)
{
    return hash(q.get_num()) + 31u * hash(q.get_den());
}

template <typename T, typename U>
    requires shim::rat_ops<T, U>
inline shim::rat_ret_t<T, U> pow(const T &b_, const U &e_)
{
    using R = shim::rat_ret_t<T, U>;
    if constexpr (cpp_fp<R>) {
        return std::pow(static_cast<R>(b_), static_cast<R>(e_));
    } else {
        const auto &b = shim::as<R>(b_);
        const auto &e = shim::as<R>(e_);
        if (b.is_one()) return b;
        if (!e.get_den().is_one()) {
            throw std::domain_error("Unable to raise the rational " + b.to_string() + " to a non-integral exponent");
        }
        const auto &n = e.get_num();
        if (n.sgn() >= 0) return R(pow(b.get_num(), n), pow(b.get_den(), n), false);
        if (b.is_zero()) throw zero_division_error("Cannot raise rational zero to a negative power");
        return R(pow(b.get_den(), -n), pow(b.get_num(), -n));
    }
}
} // namespace mppp

namespace std
{
template <std::size_t S>
struct hash<mppp::rational<S>> {
    std::size_t operator()(const mppp::rational<S> &q) const
    {
        return mppp::hash(q);
    }
};
} // namespace std

template <std::size_t S>
struct fmt::formatter<mppp::rational<S>> : fmt::formatter<std::string> {
    template <typename Ctx>
    auto format(const mppp::rational<S> &n, Ctx &ctx) const
    {
        return fmt::format_to(ctx.out(), "{}", n.to_string());
    }
};

#endif
