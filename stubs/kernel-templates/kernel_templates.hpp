// Stand-in for the AOCL-Sparse "kernel templates" (not installed in this sandbox):
// the subset of operations the library uses, written with GNU vector types.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <immintrin.h>
#include <type_traits>
#define KT_FORCE_INLINE inline __attribute__((__always_inline__))
namespace kernel_templates {
enum class bsz { b128 = 128, b256 = 256, b512 = 512 };
enum kt_avxext { AVX2 = 1, AVX512VL = 2, AVX512F = 4, AVX512DQ = 8, ANY = 16 };
template <bsz SZ, typename T> struct vt_;
template <> struct vt_<bsz::b128, float> { using type = __m128; };
template <> struct vt_<bsz::b128, double> { using type = __m128d; };
template <> struct vt_<bsz::b256, float> { using type = __m256; };
template <> struct vt_<bsz::b256, double> { using type = __m256d; };
template <> struct vt_<bsz::b512, float> { using type = __m512; };
template <> struct vt_<bsz::b512, double> { using type = __m512d; };
template <bsz SZ, typename T> using avxvector_t = typename vt_<SZ, T>::type;
template <bsz SZ, typename T> inline constexpr std::size_t tsz_v = (static_cast<std::size_t>(SZ) / 8) / sizeof(T);
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_setzero_p() noexcept { avxvector_t<SZ, T> r{}; return r; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_set1_p(T x) noexcept {
    avxvector_t<SZ, T> r{}; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r[i] = x; return r; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_loadu_p(const T *p) noexcept {
    avxvector_t<SZ, T> r{}; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r[i] = p[i]; return r; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_load_p(const T *p) noexcept { return kt_loadu_p<SZ, T>(p); }
template <bsz SZ, typename T> KT_FORCE_INLINE void kt_storeu_p(T *p, const avxvector_t<SZ, T> a) noexcept {
    for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) p[i] = a[i]; }
template <bsz SZ, typename T, typename I> KT_FORCE_INLINE avxvector_t<SZ, T> kt_set_p(const T *v, const I *b) noexcept {
    avxvector_t<SZ, T> r{}; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r[i] = v[b[i]]; return r; }
template <bsz SZ, typename T, kt_avxext E, int L> KT_FORCE_INLINE avxvector_t<SZ, T> kt_maskz_set_p(const T *v, std::size_t o) noexcept {
    avxvector_t<SZ, T> r{}; for (int i = 0; i < L; i++) r[i] = v[o + i]; return r; }
#define KT_OP_(N, E) template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> N(const avxvector_t<SZ, T> a, const avxvector_t<SZ, T> b) noexcept { return E; }
KT_OP_(kt_add_p, a + b)
KT_OP_(kt_sub_p, a - b)
KT_OP_(kt_mul_p, a *b)
KT_OP_(kt_div_p, a / b)
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_max_p(const avxvector_t<SZ, T> a, const avxvector_t<SZ, T> b) noexcept {
    avxvector_t<SZ, T> r{}; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_fmadd_p(const avxvector_t<SZ, T> a, const avxvector_t<SZ, T> b, const avxvector_t<SZ, T> c) noexcept { return a * b + c; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_pow2_p(const avxvector_t<SZ, T> a) noexcept { return a * a; }
template <bsz SZ, typename T> KT_FORCE_INLINE avxvector_t<SZ, T> kt_sqrt_p(const avxvector_t<SZ, T> a) noexcept {
    avxvector_t<SZ, T> r{}; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r[i] = std::sqrt(a[i]); return r; }
template <bsz SZ, typename T> KT_FORCE_INLINE T kt_hsum_p(const avxvector_t<SZ, T> a) noexcept {
    T r = 0; for (std::size_t i = 0; i < tsz_v<SZ, T>; i++) r += a[i]; return r; }
} // namespace kernel_templates
