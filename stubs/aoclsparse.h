/* Stand-in for AOCL-Sparse (not installed in this sandbox): declarations only. */
#pragma once
#include <stdint.h>
typedef int32_t aoclsparse_int;
typedef struct aoclsparse_itsol_s *aoclsparse_itsol_handle;
typedef enum { aoclsparse_rci_interrupt = -1, aoclsparse_rci_stop = 0, aoclsparse_rci_start, aoclsparse_rci_mv, aoclsparse_rci_precond, aoclsparse_rci_stopping_criterion } aoclsparse_itsol_rci_job;
typedef enum { aoclsparse_status_success = 0, aoclsparse_status_memory_error = 4, aoclsparse_status_maxit = 11, aoclsparse_status_numerical_error = 14 } aoclsparse_status;
#ifdef __cplusplus
extern "C" {
#endif
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle, const char *, const char *);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const double *);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const float *);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, double **, double **, double *, double *);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, float **, float **, float *, float *);
#ifdef __cplusplus
}
#endif
