// Minimal stand-in for the mp++ configuration header (the real library is not
// installed in this sandbox). Just enough for obake to be type-checked.
#ifndef MPPP_CONFIG_HPP
#define MPPP_CONFIG_HPP
#define MPPP_VERSION_STRING "0.0-shim"
#if defined(__SIZEOF_INT128__)
#define MPPP_HAVE_GCC_INT128
#endif
#endif
