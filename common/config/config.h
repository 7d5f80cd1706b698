#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_DUNE_COMMON 1
#define DUNE_COMMON_VERSION "2.11-git"
#define DUNE_COMMON_VERSION_MAJOR 2
#define DUNE_COMMON_VERSION_MINOR 11
#define DUNE_COMMON_VERSION_REVISION 0
#define DUNE_MINIMAL_DEBUG_LEVEL 4
#define DUNE_HAVE_CXX_EXPERIMENTAL_IS_DETECTED 1
#define HAVE_BLAS 1
#define HAVE_LAPACK 1
#define HAVE_TBB 1
#define LAPACK_NEEDS_UNDERLINE
#include <dune-istl-config.hh>
#endif
