// Minimal, GMP-backed stand-in for the parts of the mp++ library used by obake.
// See DESIGN.md ("The mp++ stand-in").
#ifndef MPPP_CONFIG_HPP
#define MPPP_CONFIG_HPP
#define MPPP_VERSION_MAJOR 1
#define MPPP_VERSION_MINOR 0
#define MPPP_VERSION_PATCH 0
#define MPPP_HAVE_GCC_INT128
#define MPPP_WITH_BOOST_S11N
#endif
