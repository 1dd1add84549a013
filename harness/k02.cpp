// K02: packed monomials behave as vectors of exponents.
#include "mono_check.hpp"

#if VARIANT == 1
using K0 = obake::packed_monomial<std::int64_t>;
using K1 = obake::packed_monomial<std::uint64_t>;
#else
using K0 = obake::packed_monomial<std::int32_t>;
using K1 = obake::packed_monomial<std::uint32_t>;
#endif

#define BY_KEY(f, mn)                                                                                                  \
    if (t.below(2)) {                                                                                                  \
        mono::checker<K0>(t, mn).f;                                                                                    \
    } else {                                                                                                           \
        mono::checker<K1>(t, mn).f;                                                                                    \
    }

MONO_SUBS
