// U05: the mathematical functions on numbers.
#include <pbt.hpp>

#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/symbols.hpp>
#include <obake/type_name.hpp>

#include "zint.hpp"

using namespace zi;
using Int = mppp::integer<1>;
using Rat = mppp::rational<1>;

namespace
{

using ints = standard;
using fps = list<double, float, long double>;

template <typename F>
F gen_fp(pbt::T &t)
{
    switch (t.below(6)) {
        case 0:
            return static_cast<F>(t.sym(10));
        case 1:
            return static_cast<F>(t.sym(1000)) / F(8);
        case 2:
            return t.pick({F(0), -F(0), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(),
                           std::numeric_limits<F>::max(), std::numeric_limits<F>::denorm_min()});
        case 3:
            return std::numeric_limits<F>::quiet_NaN();
        default:
            return std::ldexp(static_cast<F>(t.sym(1000000000)), static_cast<int>(t.sym(40)));
    }
}

// Bitwise agreement, NaNs agree with NaNs.
template <typename F>
bool same_fp(F a, F b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b && std::signbit(a) == std::signbit(b);
}

Int big(const mpz_class &z)
{
    return Int(z.get_str());
}
mpz_class gen_z(pbt::T &t)
{
    mpz_class z = Z(t.edgy<__int128_t>());
    if (t.below(3) == 0) z = z * Z(t.edgy<__int128_t>());
    if (t.below(3) == 0) z = t.sym(9);
    return z;
}
mpq_class gen_q(pbt::T &t)
{
    mpz_class d = t.below(2) ? mpz_class(1 + t.below(50)) : abs(gen_z(t));
    if (d == 0) d = 1;
    mpq_class q(gen_z(t), d);
    q.canonicalize();
    return q;
}
Rat ratio(const mpq_class &q)
{
    return Rat(q.get_str());
}

} // namespace

PBT_SUB(power, 400000, 10000000,
        "powers of numbers, at least one of them floating-point, of all the types: the type is that of their sum and the "
        "value that of the standard power of the operands converted to it; non-trivial: an integer is mixed with a "
        "floating-point type")
{
    auto check = [&](auto x, auto y) {
        using T = decltype(x);
        using U = decltype(y);
        using R = decltype(x + y);
        const T x0 = x;
        const U y0 = y;
        auto r = obake::pow(x, y);
        const bool ok_type = std::is_same_v<decltype(r), R>;
        PBT_CHECK(t, ok_type, "power of ", obake::type_name<T>(), " and ", obake::type_name<U>(), " has type ",
                  obake::type_name<decltype(r)>());
        const R want = std::pow(static_cast<R>(x), static_cast<R>(y));
        PBT_CHECK(t, same_fp(static_cast<R>(r), want), "got ", static_cast<double>(r), " want ", static_cast<double>(want));
        PBT_CHECK(t, same_fp(static_cast<R>(obake::pow(T(x), std::as_const(y))), want));
        if constexpr (std::is_floating_point_v<T>) {
            PBT_CHECK(t, same_fp(x, x0));
        } else {
            PBT_CHECK(t, x == x0);
        }
        if constexpr (std::is_floating_point_v<U>) {
            PBT_CHECK(t, same_fp(y, y0));
        } else {
            PBT_CHECK(t, y == y0);
        }
    };
    fps::pick(t, [&](auto a) {
        using F = typename decltype(a)::type;
        const F f = gen_fp<F>(t);
        switch (t.below(3)) {
            case 0:
                fps::pick(t, [&](auto b) {
                    using G = typename decltype(b)::type;
                    check(f, gen_fp<G>(t));
                });
                break;
            case 1:
                t.nontrivial();
                ints::pick(t, [&](auto b) {
                    using I = typename decltype(b)::type;
                    check(f, t.below(2) ? static_cast<I>(t.below(12)) : gen<I>(t));
                });
                break;
            default:
                t.nontrivial();
                ints::pick(t, [&](auto b) {
                    using I = typename decltype(b)::type;
                    check(gen<I>(t), f);
                });
        }
    });
}

PBT_SUB(negation, 400000, 10000000,
        "negation in place of machine integers (not the minimum), floating-point numbers, big integers and rationals, as "
        "named objects and temporaries: the opposite, and the result refers to the argument; non-trivial: not zero")
{
    auto ret = [&](auto &x) {
        using T = std::remove_reference_t<decltype(x)>;
        const bool l = std::is_same_v<decltype(obake::negate(x)), T &>;
        const bool r = std::is_same_v<decltype(obake::negate(std::move(x))), T &&>;
        PBT_CHECK(t, l && r, "type of the result for ", obake::type_name<T>());
        auto &y = obake::negate(x);
        PBT_CHECK(t, &y == &x, "the result is another object");
    };
    switch (t.below(4)) {
        case 0:
            ints::pick(t, [&](auto a) {
                using I = typename decltype(a)::type;
                const I x = gen<I>(t);
                mpz_class want = -Z(x);
                if (!is_neg_type<I>) {
                    mpz_class m = zmax<I>() + 1;
                    mpz_fdiv_r(want.get_mpz_t(), want.get_mpz_t(), m.get_mpz_t());
                }
                if (!fits<I>(want)) return;
                t.nontrivial(x != 0);
                I y = x;
                ret(y);
                PBT_CHECK(t, Z(y) == want, S(x), " became ", S(y));
                auto &&z = obake::negate(std::move(y));
                PBT_CHECK(t, z == x && &z == &y);
            });
            break;
        case 1:
            fps::pick(t, [&](auto a) {
                using F = typename decltype(a)::type;
                const F x = gen_fp<F>(t);
                t.nontrivial(x != 0);
                F y = x;
                ret(y);
                PBT_CHECK(t, same_fp(y, -x), static_cast<double>(x));
            });
            break;
        case 2: {
            const auto z = gen_z(t);
            t.nontrivial(z != 0);
            Int n = big(z);
            ret(n);
            PBT_CHECK(t, n == big(-z), z.get_str());
            auto &&m = obake::negate(std::move(n));
            PBT_CHECK(t, &m == &n && m == big(z));
            break;
        }
        default: {
            const auto q = gen_q(t);
            t.nontrivial(q != 0);
            Rat n = ratio(q);
            ret(n);
            PBT_CHECK(t, n == ratio(-q), q.get_str());
            auto &&m = obake::negate(std::move(n));
            PBT_CHECK(t, &m == &n && m == ratio(q));
        }
    }
    const bool no[] = {obake::is_negatable_v<const int &>, obake::is_negatable_v<const Int &>,
                       obake::is_negatable_v<const Rat &>, obake::is_negatable_v<void>, obake::is_negatable_v<std::string &>,
                       obake::Negatable<const double &>};
    for (bool b : no) PBT_CHECK(t, !b);
}

PBT_SUB(zero, 400000, 10000000,
        "the zero test of numbers of all the types (also signed zeros, NaN, infinities, big integers, rationals, complex "
        "numbers): exactly the zeros pass; non-trivial: not a small value")
{
    switch (t.below(5)) {
        case 0:
            ints::pick(t, [&](auto a) {
                using I = typename decltype(a)::type;
                // Values with few bits set, far from the least significant ones.
                const I x = t.below(2) ? gen<I>(t) : from_z<I>((mpz_class(1) << t.below(bits_of<I> - 1u)) * t.below(2));
                t.nontrivial(x > I(100));
                PBT_CHECK(t, obake::is_zero(x) == (Z(x) == 0), S(x));
                PBT_CHECK(t, obake::is_zero(I(x)) == (Z(x) == 0), S(x));
                PBT_CHECK(t, obake::is_zero(I(0)));
            });
            break;
        case 1:
            fps::pick(t, [&](auto a) {
                using F = typename decltype(a)::type;
                const F x = gen_fp<F>(t);
                t.nontrivial(x != std::trunc(x));
                PBT_CHECK(t, obake::is_zero(x) == (std::fpclassify(x) == FP_ZERO), static_cast<double>(x));
            });
            break;
        case 2: {
            const auto z = gen_z(t);
            t.nontrivial(abs(z) > 100);
            PBT_CHECK(t, obake::is_zero(big(z)) == (z == 0), z.get_str());
            break;
        }
        case 3: {
            const auto q = gen_q(t);
            t.nontrivial(q.get_den() != 1);
            PBT_CHECK(t, obake::is_zero(ratio(q)) == (q == 0), q.get_str());
            break;
        }
        default: {
            const std::complex<double> c(static_cast<double>(t.sym(2)), static_cast<double>(t.sym(2)));
            t.nontrivial(c.real() == 0 && c.imag() != 0);
            PBT_CHECK(t, obake::is_zero(c) == (c.real() == 0 && c.imag() == 0));
        }
    }
    const bool no[] = {obake::is_zero_testable_v<void>, obake::ZeroTestable<std::pair<int, int>>};
    for (bool b : no) PBT_CHECK(t, !b);
}

PBT_SUB(multiply_add, 300000, 8000000,
        "multiply-add of big integers, with every aliasing of the three operands; not available for other types without a "
        "customisation; non-trivial: nonzero factors")
{
    const auto a = gen_z(t), b = gen_z(t), c = gen_z(t);
    t.nontrivial(b != 0 && c != 0);
    Int x = big(a), y = big(b), z = big(c);
    mpz_class want;
    switch (t.below(5)) {
        case 0:
            obake::fma3(x, y, z);
            want = a + b * c;
            PBT_CHECK(t, y == big(b) && z == big(c), "factors changed");
            break;
        case 1:
            obake::fma3(x, x, z);
            want = a + a * c;
            break;
        case 2:
            obake::fma3(x, y, x);
            want = a + b * a;
            break;
        case 3:
            obake::fma3(x, y, y);
            want = a + b * b;
            PBT_CHECK(t, y == big(b), "factor changed");
            break;
        default:
            obake::fma3(x, x, x);
            want = a + a * a;
    }
    PBT_CHECK(t, x == big(want), "a = ", a.get_str(), ", b = ", b.get_str(), ", c = ", c.get_str(), " gave ", x.to_string());
    const bool yes[] = {obake::is_mult_addable_v<Int &, const Int &, const Int &>, obake::is_mult_addable_v<Int &, Int, Int &>,
                        obake::MultAddable<Int &, Int, Int &>};
    for (bool k : yes) PBT_CHECK(t, k);
    const bool no[] = {obake::is_mult_addable_v<int &, int, int>, obake::is_mult_addable_v<const Int &, Int, Int>,
                       obake::is_mult_addable_v<Int, Int, Int>, obake::is_mult_addable_v<void, void, void>};
    for (bool k : no) PBT_CHECK(t, !k);
}

PBT_SUB(constants, 300000, 8000000,
        "numbers as constants: the derivative is the zero of the same type, evaluation, substitution and trimming give an "
        "equal number of the same type and leave the argument; they have no degree, no integral and no truncation; "
        "non-trivial: a nonzero value")
{
    const std::string s = t.pick({std::string("x"), std::string(""), std::string("alpha")});
    obake::symbol_map<double> m;
    if (t.below(2)) m[s] = 3.5;
    auto check = [&](const auto &x, bool nz) {
        using T = std::remove_cvref_t<decltype(x)>;
        t.nontrivial(nz);
        const T x0 = x;
        const bool types = std::is_same_v<decltype(obake::diff(x, s)), T> && std::is_same_v<decltype(obake::evaluate(x, m)), T>
                           && std::is_same_v<decltype(obake::subs(x, m)), T> && std::is_same_v<decltype(obake::trim(x)), T>
                           && std::is_same_v<decltype(obake::trim(T(x))), T>;
        PBT_CHECK(t, types, "types of the results for ", obake::type_name<T>());
        PBT_CHECK(t, obake::diff(x, s) == T(0), "derivative");
        PBT_CHECK(t, obake::diff(T(x), s) == T(0), "derivative");
        PBT_CHECK(t, obake::evaluate(x, m) == x && obake::evaluate(T(x), m) == x, "evaluation");
        PBT_CHECK(t, obake::subs(x, m) == x && obake::subs(T(x), m) == x, "substitution");
        PBT_CHECK(t, obake::trim(x) == x && obake::trim(T(x)) == x, "trimming");
        PBT_CHECK(t, x == x0);
        const bool no[] = {obake::is_with_degree_v<T>,
                           obake::is_with_degree_v<const T &>,
                           obake::is_with_p_degree_v<T>,
                           obake::is_integrable_v<T>,
                           obake::is_degree_truncatable_v<T &, int>,
                           obake::is_degree_truncatable_v<T &, T>,
                           obake::is_p_degree_truncatable_v<T &, int>};
        for (bool b : no) PBT_CHECK(t, !b, "for ", obake::type_name<T>());
    };
    switch (t.below(4)) {
        case 0:
            ints::pick(t, [&](auto a) {
                using I = typename decltype(a)::type;
                const I x = gen<I>(t);
                check(x, x != 0);
            });
            break;
        case 1: {
            const double d = static_cast<double>(t.sym(100000)) / 64;
            check(d, d != 0);
            check(static_cast<float>(d), d != 0);
            check(static_cast<long double>(d), d != 0);
            break;
        }
        case 2: {
            const auto z = gen_z(t);
            check(big(z), z != 0);
            break;
        }
        default: {
            const auto q = gen_q(t);
            check(ratio(q), q != 0);
        }
    }
}

PBT_SUB(sizes_and_hashes, 300000, 8000000,
        "the size in bytes is that of the object plus that of the limbs on the heap; the hash is the standard one where there "
        "is one, and equal numbers have equal hashes; non-trivial: a value beyond 64 bits or a nonzero hash")
{
    switch (t.below(4)) {
        case 0:
            ints::pick(t, [&](auto a) {
                using I = typename decltype(a)::type;
                const I x = gen<I>(t);
                PBT_CHECK(t, obake::byte_size(x) == sizeof(I));
                PBT_CHECK(t, obake::byte_size(I(x)) == sizeof(I));
                if constexpr (sizeof(I) < 16) {
                    t.nontrivial(x != 0);
                    PBT_CHECK(t, obake::hash(x) == std::hash<I>{}(x), S(x));
                }
            });
            break;
        case 1: {
            const auto z = gen_z(t);
            const Int n = big(z);
            t.nontrivial(mpz_size(z.get_mpz_t()) > 1);
            const auto want = sizeof(Int) + (n.is_static() ? 0u : n.size() * sizeof(mp_limb_t));
            PBT_CHECK(t, obake::byte_size(n) == want, "got ", obake::byte_size(n), " want ", want);
            PBT_CHECK(t, obake::hash(n) == obake::hash(big(z + 1) - 1));
            break;
        }
        case 2: {
            const auto q = gen_q(t);
            const Rat r = ratio(q);
            t.nontrivial(mpz_size(q.get_num().get_mpz_t()) > 1 || mpz_size(q.get_den().get_mpz_t()) > 1);
            auto heap = [](const Int &n) { return n.is_static() ? 0u : n.size() * sizeof(mp_limb_t); };
            PBT_CHECK(t, obake::byte_size(r) == sizeof(Rat) + heap(r.get_num()) + heap(r.get_den()), q.get_str());
            PBT_CHECK(t, obake::hash(r) == obake::hash(ratio(q + 1) - 1));
            break;
        }
        default: {
            std::string s(static_cast<std::size_t>(t.below(40)), 'a');
            for (auto &c : s) c = static_cast<char>('a' + t.below(26));
            t.nontrivial(s.size() > 1);
            PBT_CHECK(t, obake::hash(s) == std::hash<std::string>{}(s));
            PBT_CHECK(t, obake::byte_size(s) == sizeof(s));
            PBT_CHECK(t, obake::hash(std::string(s)) == obake::hash(s));
        }
    }
    struct nothing {
    };
    const bool no[] = {obake::is_hashable_v<nothing>, obake::is_hashable_v<void>, obake::is_size_measurable_v<void>};
    for (bool b : no) PBT_CHECK(t, !b);
}
