/* Stand-in for AOCL-DLP (not installed in this sandbox): declarations only. */
#pragma once
#include <stdint.h>
typedef uint16_t float16;
#ifdef __cplusplus
extern "C" {
#endif
void aocl_gemm_f16f16f16of16(char, char, char, long, long, long, float16, const float16 *, long, char, const float16 *, long, char, float16, float16 *, long, void *);
#ifdef __cplusplus
}
#endif
