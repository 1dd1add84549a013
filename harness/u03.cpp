// U03: checked integer addition and subtraction, in the variant with compiler builtins and in the portable one.
#include <pbt.hpp>

#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

#include <obake/config.hpp>
#include <obake/detail/limits.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/exceptions.hpp>
#include <obake/type_name.hpp>
#include <obake/type_traits.hpp>

#if VARIANT == 2
// The portable implementation, under other names so that it does not clash with the other variant.
#define safe_int_add safe_int_add_portable
#define safe_int_sub safe_int_sub_portable
#define safe_int_arith_err safe_int_arith_err_portable
#undef OBAKE_COMPILER_IS_GCC
#endif
#include <obake/detail/safe_integral_arith.hpp>

#include "zint.hpp"

using namespace zi;

namespace
{

// The two operands and the text of an error, which quotes them.
template <typename I>
void one(pbt::T &t, I a, I b, bool sub)
{
    const mpz_class want = sub ? mpz_class(Z(a) - Z(b)) : mpz_class(Z(a) + Z(b));
    PBT_LOG(t, S(a), sub ? " - " : " + ", S(b), " in ", bits_of<I>, is_neg_type<I> ? " signed" : " unsigned", " bits");
    bool thrown = false;
    I r{};
    try {
        r = sub ? obake::detail::safe_int_sub(a, b) : obake::detail::safe_int_add(a, b);
    } catch (const std::overflow_error &e) {
        thrown = true;
        const std::string m = e.what();
        PBT_CHECK(t, m.find(S(a) + " and " + S(b)) != std::string::npos, "operands not in the message: ", m);
        PBT_CHECK(t, m.find(sub ? "subtraction" : "addition") != std::string::npos, m);
        PBT_CHECK(t, m.find("'" + obake::type_name<I>() + "'") != std::string::npos, m);
    }
    if (fits<I>(want)) {
        PBT_CHECK(t, !thrown, "error although the result fits: ", want.get_str());
        PBT_CHECK(t, Z(r) == want, "got ", S(r), " want ", want.get_str());
    } else {
        PBT_CHECK(t, thrown, "no error although the result is ", want.get_str(), ", got ", S(r));
    }
}

template <typename I>
void run(pbt::T &t)
{
    const bool sub = t.below(2);
    const I a = gen<I>(t);
    I b = gen<I>(t);
    const bool aim = t.below(3) == 0;
    if (aim) {
        // A result at or next to a limit.
        const mpz_class lim = t.below(2) ? zmax<I>() : zmin<I>();
        const mpz_class res = lim + t.sym(2);
        const mpz_class bb = sub ? mpz_class(Z(a) - res) : mpz_class(res - Z(a));
        if (fits<I>(bb)) {
            b = from_z<I>(bb);
            t.label("result at a limit");
        }
    }
    const mpz_class want = sub ? mpz_class(Z(a) - Z(b)) : mpz_class(Z(a) + Z(b));
    t.nontrivial(a != I(0) && b != I(0));
    t.label(fits<I>(want) ? "fits" : "overflows");
    one<I>(t, a, b, sub);
}

} // namespace

PBT_SUB(add_sub, 1000000, 40000000,
        "operands of all the integral types, biased to results at the limits plus or minus two: the exact sum or difference "
        "when it is representable, otherwise an overflow_error that quotes the operands; non-trivial: nonzero operands")
{
    zi::list<int, long, long long, short, signed char, char, unsigned, unsigned short, unsigned char, unsigned long,
             unsigned long long, bool
#if VARIANT == 1
             ,
             __int128_t, __uint128_t
#else
             ,
             __int128_t, __uint128_t
#endif
             >::pick(t, [&](auto tg) { run<typename decltype(tg)::type>(t); });
}

PBT_SUB(exhaustive_bytes, 600, 4000,
        "all the operand pairs with a given first operand of the 8-bit types and bool; non-trivial: always")
{
    t.nontrivial();
    const bool sub = t.below(2);
    const auto k = static_cast<int>(t.below(256));
    switch (t.below(3)) {
        case 0:
            for (int j = 0; j < 256; ++j) one<signed char>(t, static_cast<signed char>(k), static_cast<signed char>(j), sub);
            break;
        case 1:
            for (int j = 0; j < 256; ++j) {
                one<unsigned char>(t, static_cast<unsigned char>(k), static_cast<unsigned char>(j), sub);
            }
            break;
        default:
            for (int j = 0; j < 2; ++j) one<bool>(t, k & 1, j, sub);
    }
}
