// A user-defined key (exponents in a vector, a poor hash, keys that count as zero) and a user-defined tag.
#ifndef UKEY_HPP
#define UKEY_HPP

#include "poly_model.hpp"

#include <ostream>
#include <vector>

#include <obake/hash.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_stream_insert.hpp>

#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>

namespace uk
{

// An exponent of this value in any place makes the key zero.
constexpr std::int64_t zero_exponent = 77;

struct ukey {
    std::vector<std::int64_t> e;

    ukey() = default;
    explicit ukey(const obake::symbol_set &ss) : e(ss.size(), 0) {}
    template <typename It>
    explicit ukey(It b, It en) : e(b, en)
    {
    }
    friend bool operator==(const ukey &a, const ukey &b)
    {
        return a.e == b.e;
    }
    friend bool operator!=(const ukey &a, const ukey &b)
    {
        return !(a == b);
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & e;
    }
};

inline std::size_t hash(const ukey &k)
{
    // Insensitive to the symbols, with many collisions.
    std::int64_t s = 0;
    for (auto x : k.e) s += x;
    return static_cast<std::size_t>(s) & 31u;
}
inline bool key_is_zero(const ukey &k, const obake::symbol_set &)
{
    for (auto x : k.e) {
        if (x == zero_exponent) return true;
    }
    return false;
}
inline bool key_is_one(const ukey &k, const obake::symbol_set &)
{
    for (auto x : k.e) {
        if (x != 0) return false;
    }
    return true;
}
inline bool key_is_compatible(const ukey &k, const obake::symbol_set &ss)
{
    return k.e.size() == ss.size();
}
inline void key_stream_insert(std::ostream &os, const ukey &k, const obake::symbol_set &ss)
{
    unsigned i = 0;
    os << '<';
    for (const auto &s : ss) os << s << ':' << k.e[i++] << ' ';
    os << '>';
}
inline ukey key_merge_symbols(const ukey &k, const obake::symbol_idx_map<obake::symbol_set> &m, const obake::symbol_set &ss)
{
    ukey r;
    std::size_t i = 0;
    for (; i < ss.size(); ++i) {
        const auto it = m.find(i);
        if (it != m.end()) r.e.insert(r.e.end(), it->second.size(), 0);
        r.e.push_back(k.e[i]);
    }
    const auto it = m.find(i);
    if (it != m.end()) r.e.insert(r.e.end(), it->second.size(), 0);
    return r;
}

struct utag {
    int v = 0;
    friend bool operator==(const utag &a, const utag &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const utag &a, const utag &b)
    {
        return a.v != b.v;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & v;
    }
};

} // namespace uk

namespace pm
{
template <>
struct key_traits<uk::ukey> {
    using int_t = std::int64_t;
    static constexpr bool dynamic = true;
    static std::vector<std::int64_t> unpack(const uk::ukey &k, unsigned n)
    {
        if (k.e.size() != n) throw pbt::failure{"a key of the wrong size"};
        return k.e;
    }
    static std::pair<std::int64_t, std::int64_t> lims(unsigned)
    {
        return {-1000000, 1000000};
    }
};
} // namespace pm

#endif
