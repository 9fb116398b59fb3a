// native entry points for the layout conversions (C09) and the array checks (C20)
#include "basic_handle.hpp"
#include "basic_handle_options.hpp"
#include "aoclda.h"
#include "da_utils.hpp"
#include <cstring>
namespace ARCH { namespace da_basic_statistics { da_status row_to_col_major(da_order, da_axis, da_int, da_int, da_int, da_axis &, da_int &, da_int &); } }
using namespace ARCH::da_utils;
// reference transpositions with the documented semantics of the BLAS extension
template <class T> static void om(char t, int m, int n, T al, const T *A, int lda, T *B, int ldb) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { size_t d = (t == 'T' || t == 't') ? j + (size_t)i * ldb : i + (size_t)j * ldb; B[d] = al * A[i + (size_t)j * lda]; }
}
template <class T> static void im(char t, int m, int n, T al, T *A, int la, int lb) {
    std::vector<T> tmp((size_t)m * n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) tmp[i + (size_t)j * m] = A[i + (size_t)j * la];
    om(t, m, n, al, tmp.data(), m, A, lb);
}
extern "C" {
void somatcopy_(char *t, int *m, int *n, const float *al, const float *A, int *la, float *B, int *lb) { om(*t, *m, *n, *al, A, *la, B, *lb); }
void domatcopy_(char *t, int *m, int *n, const double *al, const double *A, int *la, double *B, int *lb) { om(*t, *m, *n, *al, A, *la, B, *lb); }
void simatcopy_(char *t, int *m, int *n, const float *al, float *A, int *la, int *lb) { im(*t, *m, *n, *al, A, *la, *lb); }
void dimatcopy_(char *t, int *m, int *n, const double *al, double *A, int *la, int *lb) { im(*t, *m, *n, *al, A, *la, *lb); }
}
template <class T> struct H : basic_handle<T> {
    H(da_errors::da_error_t &e) : basic_handle<T>(e) {}
    da_status get_result(da_result, da_int *, T *) { return da_status_success; }
    da_status get_result(da_result, da_int *, da_int *) { return da_status_success; }
};
template <class T> static int results(int order, int m, int n, T *D, int ld, T *R) {
    da_errors::da_error_t e(da_errors::action_t::DA_RECORD);
    H<T> h(e); h.order = (da_order)order; h.copy_2D_results_array(m, n, D, ld, R); return 0;
}
// copies the stored matrix (column major, leading dimension *ldi) into out; *moved = a new array was made
template <class T> static int store(int order, int check, int m, int n, const T *D, int ld, int mode, int rmin, int cmin, T *out, int *ldi, int *moved) {
    da_errors::da_error_t e(da_errors::action_t::DA_RECORD);
    H<T> h(e); h.opts.set("storage order", order == 0 ? "row-major" : "column-major"); h.opts.set("check data", check ? "yes" : "no");
    T *tmp = nullptr; const T *in = nullptr; da_int l = -7;
    da_status s = h.store_2D_array(m, n, D, ld, &tmp, &in, l, "m", "n", "D", "ld", mode, rmin, cmin);
    *ldi = l; *moved = tmp != nullptr ? 2 : (in == D ? 1 : 0);
    if (s == da_status_success && mode == 0) { if (tmp && in != tmp) *moved = 9; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) out[i + (size_t)j * m] = in[i + (size_t)j * l]; }
    delete[] tmp; return s;
}
template <class T> static int chk1(int check, int n, const T *D, int nmin, int via) {
    da_errors::da_error_t e(da_errors::action_t::DA_RECORD);
    if (via) { if constexpr (!std::is_same_v<T, int>) { H<T> h(e); h.opts.set("check data", check ? "yes" : "no"); return h.check_1D_array(n, D, "n", "D", nmin); } else { H<double> h(e); h.opts.set("check data", check ? "yes" : "no"); return h.check_1D_array(n, D, "n", "D", nmin); } }
    return check_1D_array<T>(check, &e, n, D, "n", "D", nmin);
}
template <class T> static int chk2(int check, int order, int m, int n, const T *D, int ld, int rmin, int cmin, int via) {
    da_errors::da_error_t e(da_errors::action_t::DA_RECORD);
    if (via) { H<T> h(e); h.opts.set("check data", check ? "yes" : "no"); return h.check_2D_array((da_order)order, m, n, D, ld, "m", "n", "D", "ld", rmin, cmin); }
    return check_2D_array<T>(check, (da_order)order, &e, m, n, D, ld, "m", "n", "D", "ld", rmin, cmin);
}
#define ONE(T, S) \
extern "C" int r2c_##S(int m, int n, const T *A, int la, T *B, int lb) { copy_transpose_2D_array_row_to_column_major<T>(m, n, A, la, B, lb); return 0; } \
extern "C" int c2r_##S(int m, int n, const T *A, int la, T *B, int lb) { copy_transpose_2D_array_column_to_row_major<T>(m, n, A, la, B, lb); return 0; } \
extern "C" int swc_##S(int o, int m, int n, const T *A, int la, T *B, int lb) { return switch_order_copy<T>((da_order)o, m, n, A, la, B, lb); } \
extern "C" int swi_##S(int o, int m, int n, T *A, int la, int lb) { return switch_order_in_place<T>((da_order)o, m, n, A, la, lb); } \
extern "C" int res_##S(int o, int m, int n, T *D, int ld, T *R) { return results<T>(o, m, n, D, ld, R); } \
extern "C" int sto_##S(int o, int ck, int m, int n, const T *D, int ld, int mode, int rm, int cm, T *out, int *ldi, int *mv) { return store<T>(o, ck, m, n, D, ld, mode, rm, cm, out, ldi, mv); } \
extern "C" int ckd_##S(int o, int m, int n, const T *D, int ld) { return check_data<T>((da_order)o, m, n, D, ld); } \
extern "C" int ck1_##S(int ck, int n, const T *D, int nm, int via) { return chk1<T>(ck, n, D, nm, via); } \
extern "C" int ck2_##S(int ck, int o, int m, int n, const T *D, int ld, int rm, int cm, int via) { return chk2<T>(ck, o, m, n, D, ld, rm, cm, via); } \
extern "C" int cat_##S(int n, const T *D, int *nc, int mx, double tol) { return check_categorical_data<T>(n, D, *nc, mx, (T)tol); }
ONE(double, d) ONE(float, f)
extern "C" int ck1_i(int ck, int n, const int *D, int nm, int via) { return chk1<int>(ck, n, D, nm, via); }
extern "C" int ckd_i(int o, int m, int n, const int *D, int ld) { return check_data<int>((da_order)o, m, n, D, ld); }
extern "C" int cvt_df(int o, int m, int n, const double *A, int la, float *B, int lb) { copy_array_convert_precision<double, float>((da_order)o, m, n, A, la, B, lb); return 0; }
extern "C" int cvt_fd(int o, int m, int n, const float *A, int la, double *B, int lb) { copy_array_convert_precision<float, double>((da_order)o, m, n, A, la, B, lb); return 0; }
extern "C" int cvt_ff(int o, int m, int n, const float *A, int la, float *B, int lb) { copy_array_convert_precision<float, float>((da_order)o, m, n, A, la, B, lb); return 0; }
extern "C" int cvt_fs(int o, int m, int n, const float *A, int la, short *B, int lb) { copy_array_convert_precision<float, short>((da_order)o, m, n, A, la, B, lb); return 0; }
extern "C" int r2cm(int o, int ax, int n, int p, int ld, int *out) {
    da_axis a = (da_axis)77; da_int n2 = -7, p2 = -7; int s = ARCH::da_basic_statistics::row_to_col_major((da_order)o, (da_axis)ax, n, p, ld, a, n2, p2); out[0] = a; out[1] = n2; out[2] = p2; return s;
}
