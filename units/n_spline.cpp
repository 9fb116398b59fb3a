// native entry points for the interpolation handle (C11)
#include "interpolation.hpp"
#include <string>
extern "C" const char *da_get_version();
using namespace ARCH::da_interpolation;
template <class T> struct O { da_errors::da_error_t e{da_errors::action_t::DA_RECORD}; interpolation_p<T> h{e}; };
#define ALL(T, S) \
extern "C" void *sp_new_##S() { return new O<T>(); } \
extern "C" void sp_free_##S(void *o) { delete (O<T> *)o; } \
extern "C" int sp_opt_##S(void *o, const char *k, const char *v) { int s = ((O<T> *)o)->h.opts.set(k, v); ((O<T> *)o)->h.refresh(); return s; } \
extern "C" int sp_model_##S(void *o, int m) { return ((O<T> *)o)->h.select_model((da_interpolation_model)m); } \
extern "C" int sp_sites_##S(void *o, int n, const T *x) { return ((O<T> *)o)->h.set_sites(n, x); } \
extern "C" int sp_uniform_##S(void *o, int n, double a, double b) { return ((O<T> *)o)->h.set_sites_uniform(n, (T)a, (T)b); } \
extern "C" int sp_values_##S(void *o, int n, int d, const T *y, int ld, int ord) { return ((O<T> *)o)->h.set_values(n, d, y, ld, ord); } \
extern "C" int sp_bc_##S(void *o, int d, int lo, const T *l, int ro, const T *r) { return ((O<T> *)o)->h.set_boundary_conditions(d, lo, l, ro, r); } \
extern "C" int sp_fit_##S(void *o) { return ((O<T> *)o)->h.interpolate(); } \
extern "C" int sp_cells_##S(void *o, int n, const T *x, int *c) { return ((O<T> *)o)->h.search_cells(n, x, c); } \
extern "C" int sp_eval_##S(void *o, int n, const T *x, T *y, int no, const int *ord) { return ((O<T> *)o)->h.evaluate(n, x, y, no, ord); } \
extern "C" int sp_get_##S(void *o, int q, int *d, T *r) { return ((O<T> *)o)->h.get_result((da_result)q, d, r); }
ALL(double, d) ALL(float, f)
