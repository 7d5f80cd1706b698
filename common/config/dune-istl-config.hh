#ifndef DUNE_ISTL_CONFIG_HH
#define DUNE_ISTL_CONFIG_HH
#ifndef HAVE_DUNE_ISTL
#define HAVE_DUNE_ISTL 1
#endif
#define HAVE_UMFPACK HAVE_SUITESPARSE_UMFPACK
#define SUPERLU_INT_TYPE int
#define DUNE_ISTL_VERSION "2.11-git"
#define DUNE_ISTL_VERSION_MAJOR 2
#define DUNE_ISTL_VERSION_MINOR 11
#define DUNE_ISTL_VERSION_REVISION 0
#define DUNE_ISTL_SUPPORT_OLD_CATEGORY_INTERFACE 1
#endif
