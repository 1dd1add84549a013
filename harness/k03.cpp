// K03: dynamic packed monomials behave as vectors of exponents.
#include "mono_check.hpp"

using obake::d_packed_monomial;
#if VARIANT == 1
using K0 = obake::d_monomial;
using K1 = obake::d_laurent_monomial;
#elif VARIANT == 2
using K0 = d_packed_monomial<std::int32_t, 1>;
using K1 = d_packed_monomial<std::uint32_t, 3>;
#elif VARIANT == 3
using K0 = d_packed_monomial<std::int64_t, 1>;
using K1 = d_packed_monomial<std::uint64_t, 2>;
#elif VARIANT == 4
using K0 = d_packed_monomial<std::int32_t, 10>;
using K1 = d_packed_monomial<std::int64_t, 21>;
#else
using K0 = d_packed_monomial<std::uint32_t, 1>;
using K1 = d_packed_monomial<std::int32_t, 4>;
#endif

#define BY_KEY(f, mn)                                                                                                  \
    if (t.below(2)) {                                                                                                  \
        mono::checker<K0>(t, mn).f;                                                                                    \
    } else {                                                                                                           \
        mono::checker<K1>(t, mn).f;                                                                                    \
    }

MONO_SUBS
