// native entry points for the quantiles (C08)
#include "aoclda.h"
#include "basic_statistics.hpp"
#include "macros.h"
namespace ARCH { namespace da_basic_statistics {
template <class T> da_status quantile(da_order, da_axis, da_int, da_int, const T *, da_int, const T *, da_int, T *, da_quantile_type);
template <class T> da_status five_point_summary(da_order, da_axis, da_int, da_int, const T *, da_int, T *, T *, T *, T *, T *);
} }
using namespace ARCH::da_basic_statistics;
#define ONE(T, S) \
extern "C" int qu_##S(int o, int a, int n, int p, const T *x, int ld, const T *q, int nq, T *out, int t) { return quantile<T>((da_order)o, (da_axis)a, n, p, x, ld, q, nq, out, (da_quantile_type)t); } \
extern "C" int fp_##S(int o, int a, int n, int p, const T *x, int ld, T *b, T *c, T *d, T *e, T *f) { return five_point_summary<T>((da_order)o, (da_axis)a, n, p, x, ld, b, c, d, e, f); }
ONE(double, d) ONE(float, f)
