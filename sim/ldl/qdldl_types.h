/* Types of the LDL stand-in (the real QDLDL is fetched at configure time and is not available offline). */
#ifndef QDLDL_TYPES_H
#define QDLDL_TYPES_H
#include <limits.h>
#include "osqp_configure.h"
#ifdef OSQP_USE_LONG
typedef long long QDLDL_int;
#define QDLDL_INT_MAX LLONG_MAX
#else
typedef int QDLDL_int;
#define QDLDL_INT_MAX INT_MAX
#endif
#ifdef OSQP_USE_FLOAT
typedef float QDLDL_float;
#else
typedef double QDLDL_float;
#endif
typedef unsigned char QDLDL_bool;
#endif
