// A user-defined monomial with every operation the library may ask for: exponents in a vector (so that the use of a
// moved-from or of a wrongly sized key shows), hashes of different quality, a size of its own choosing and, for some, a
// range check. H: 1 a good hash that is homomorphic; 2 the same for the degree as the hash; 3 the same for a constant;
// 4 a good hash that is not homomorphic.
#ifndef UMONO_HPP
#define UMONO_HPP

#include "poly_model.hpp"

#include <atomic>
#include <ostream>
#include <stdexcept>
#include <vector>

#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/pow.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/ranges.hpp>

namespace um
{

using expo = std::int64_t;
// Bytes that every key claims to take.
inline std::atomic<std::size_t> weight{64};
// The largest exponent of a product over monomials with a range check.
constexpr expo top = 40;

template <int H>
struct umono {
    std::vector<expo> e;

    umono() = default;
    explicit umono(const obake::symbol_set &ss) : e(ss.size(), 0) {}
    template <typename It>
    explicit umono(It b, It en) : e(b, en)
    {
    }
    friend bool operator==(const umono &a, const umono &b)
    {
        return a.e == b.e;
    }
    friend bool operator!=(const umono &a, const umono &b)
    {
        return !(a == b);
    }
};

[[noreturn]] inline void misuse(const char *what)
{
    throw std::logic_error(std::string("the library passed a key of the wrong size to ") + what);
}
template <int H>
void fits(const umono<H> &k, const obake::symbol_set &ss, const char *what)
{
    if (k.e.size() != ss.size()) misuse(what);
}

template <int H>
std::size_t hash(const umono<H> &k)
{
    std::size_t r = 0, c = 0x9e3779b97f4a7c15ull;
    for (auto x : k.e) {
        if (H == 1) r += static_cast<std::size_t>(x) * c;
        else if (H == 2) r += static_cast<std::size_t>(x);
        else if (H == 4) r = (r ^ static_cast<std::size_t>(x)) * 0x100000001b3ull + 7u;
        c *= 0xda942042e4dd58b5ull;
    }
    return r;
}
template <int H>
std::size_t byte_size(const umono<H> &)
{
    return weight.load(std::memory_order_relaxed);
}
template <int H>
bool key_is_zero(const umono<H> &k, const obake::symbol_set &ss)
{
    fits(k, ss, "key_is_zero()");
    return false;
}
template <int H>
bool key_is_one(const umono<H> &k, const obake::symbol_set &ss)
{
    fits(k, ss, "key_is_one()");
    for (auto x : k.e) {
        if (x != 0) return false;
    }
    return true;
}
template <int H>
bool key_is_compatible(const umono<H> &k, const obake::symbol_set &ss)
{
    return k.e.size() == ss.size();
}
template <int H>
void key_stream_insert(std::ostream &os, const umono<H> &k, const obake::symbol_set &ss)
{
    fits(k, ss, "key_stream_insert()");
    unsigned i = 0;
    for (const auto &s : ss) os << '<' << s << ':' << k.e[i++] << '>';
}
template <int H>
umono<H> key_merge_symbols(const umono<H> &k, const obake::symbol_idx_map<obake::symbol_set> &m, const obake::symbol_set &ss)
{
    fits(k, ss, "key_merge_symbols()");
    umono<H> r;
    std::size_t i = 0;
    for (; i < ss.size(); ++i) {
        const auto it = m.find(i);
        if (it != m.end()) r.e.insert(r.e.end(), it->second.size(), 0);
        r.e.push_back(k.e[i]);
    }
    const auto it = m.find(i);
    if (it != m.end()) r.e.insert(r.e.end(), it->second.size(), 0);
    return r;
}
template <int H>
expo key_degree(const umono<H> &k, const obake::symbol_set &ss)
{
    fits(k, ss, "key_degree()");
    expo r = 0;
    for (auto x : k.e) r += x;
    return r;
}
template <int H>
expo key_p_degree(const umono<H> &k, const obake::symbol_idx_set &si, const obake::symbol_set &ss)
{
    fits(k, ss, "key_p_degree()");
    expo r = 0;
    for (auto i : si) {
        if (i >= k.e.size()) misuse("key_p_degree()");
        r += k.e[i];
    }
    return r;
}
template <int H, typename U>
U key_evaluate(const umono<H> &k, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &ss)
{
    fits(k, ss, "key_evaluate()");
    if (sm.size() != ss.size()) misuse("key_evaluate()");
    U r(1);
    for (const auto &p : sm) {
        if (p.first >= k.e.size()) misuse("key_evaluate()");
        r = r * static_cast<U>(obake::pow(p.second, k.e[p.first]));
    }
    return r;
}
template <int H>
umono<H> key_trim(const umono<H> &k, const obake::symbol_idx_set &si, const obake::symbol_set &ss)
{
    fits(k, ss, "key_trim()");
    umono<H> r;
    for (std::size_t i = 0; i < k.e.size(); ++i) {
        if (!si.count(i)) r.e.push_back(k.e[i]);
    }
    return r;
}
template <int H>
void key_trim_identify(std::vector<int> &v, const umono<H> &k, const obake::symbol_set &ss)
{
    fits(k, ss, "key_trim_identify()");
    if (v.size() != ss.size()) misuse("key_trim_identify()");
    for (std::size_t i = 0; i < k.e.size(); ++i) {
        if (k.e[i] != 0) v[i] = 0;
    }
}

template <int H>
void monomial_mul(umono<H> &r, const umono<H> &a, const umono<H> &b, const obake::symbol_set &ss)
{
    fits(a, ss, "monomial_mul()");
    fits(b, ss, "monomial_mul()");
    r.e.resize(a.e.size());
    for (std::size_t i = 0; i < a.e.size(); ++i) r.e[i] = a.e[i] + b.e[i];
}
template <int H, typename N>
umono<H> monomial_pow(const umono<H> &a, const N &n, const obake::symbol_set &ss)
{
    fits(a, ss, "monomial_pow()");
    umono<H> r(a);
    for (auto &x : r.e) x *= static_cast<expo>(n);
    return r;
}
template <int H, typename U>
std::pair<U, umono<H>> monomial_subs(const umono<H> &k, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &ss)
{
    fits(k, ss, "monomial_subs()");
    std::pair<U, umono<H>> r(U(1), k);
    for (const auto &p : sm) {
        if (p.first >= k.e.size()) misuse("monomial_subs()");
        r.first = r.first * static_cast<U>(obake::pow(p.second, k.e[p.first]));
        r.second.e[p.first] = 0;
    }
    return r;
}
template <int H>
std::pair<expo, umono<H>> monomial_diff(const umono<H> &k, const obake::symbol_idx &i, const obake::symbol_set &ss)
{
    fits(k, ss, "monomial_diff()");
    if (i >= k.e.size()) misuse("monomial_diff()");
    std::pair<expo, umono<H>> r(k.e[i], k);
    if (r.first != 0) --r.second.e[i];
    return r;
}
template <int H>
std::pair<expo, umono<H>> monomial_integrate(const umono<H> &k, const obake::symbol_idx &i, const obake::symbol_set &ss)
{
    fits(k, ss, "monomial_integrate()");
    if (i >= k.e.size()) misuse("monomial_integrate()");
    if (k.e[i] == -1) throw std::domain_error("a logarithm");
    std::pair<expo, umono<H>> r(k.e[i] + 1, k);
    ++r.second.e[i];
    return r;
}

template <typename R>
struct range_key {
    using type = std::remove_cvref_t<decltype(*obake::begin(std::declval<R>()))>;
};
template <typename R1, typename R2>
concept checked = requires { typename range_key<R1>::type; typename range_key<R2>::type; }
                  && std::is_same_v<typename range_key<R1>::type, typename range_key<R2>::type>
                  && (std::is_same_v<typename range_key<R1>::type, umono<3>> || std::is_same_v<typename range_key<R1>::type, umono<4>>);
inline std::atomic<unsigned> range_checks{0};
struct range_check {
    template <typename R1, typename R2>
    bool operator()(R1 &&r1, R2 &&r2, const obake::symbol_set &ss) const
    {
        ++range_checks;
        std::vector<expo> m1(ss.size(), std::numeric_limits<expo>::min()), m2(m1);
        bool none1 = true, none2 = true;
        for (const auto &k : r1) {
            fits(k, ss, "monomial_range_overflow_check()");
            none1 = false;
            for (std::size_t i = 0; i < m1.size(); ++i) m1[i] = std::max(m1[i], k.e[i]);
        }
        for (const auto &k : r2) {
            fits(k, ss, "monomial_range_overflow_check()");
            none2 = false;
            for (std::size_t i = 0; i < m2.size(); ++i) m2[i] = std::max(m2[i], k.e[i]);
        }
        if (none1 || none2) return true;
        for (std::size_t i = 0; i < m1.size(); ++i) {
            if (m1[i] + m2[i] > top) return false;
        }
        return true;
    }
};

} // namespace um

namespace obake
{
// Both ways of declaring the hash.
namespace polynomials
{
}
template <>
inline constexpr auto monomial_hash_is_homomorphic<um::umono<1>> = true;
namespace customisation
{
template <>
inline constexpr auto monomial_hash_is_homomorphic<um::umono<2>> = true;
template <>
inline constexpr auto monomial_hash_is_homomorphic<um::umono<3>> = true;
template <>
inline constexpr auto monomial_hash_is_homomorphic<um::umono<4>> = false;
template <typename R1, typename R2>
    requires um::checked<R1, R2>
inline constexpr auto monomial_range_overflow_check<R1, R2> = um::range_check{};
} // namespace customisation
} // namespace obake
// The declaration in the customisation namespace has precedence.
template <>
inline constexpr auto obake::monomial_hash_is_homomorphic<um::umono<4>> = true;

namespace pm
{
template <int H>
struct key_traits<um::umono<H>> {
    using int_t = std::int64_t;
    static constexpr bool dynamic = true;
    static std::vector<std::int64_t> unpack(const um::umono<H> &k, unsigned n)
    {
        if (k.e.size() != n) throw pbt::failure{"a key of the wrong size"};
        return k.e;
    }
    static std::pair<std::int64_t, std::int64_t> lims(unsigned)
    {
        return {-1000000, 1000000};
    }
};
} // namespace pm

#endif
