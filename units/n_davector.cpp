
// real da_vector header with malloc/free replaced by a guarded allocator (canaries, poison, leak count)
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <vector>
#include <stdexcept>
#include <type_traits>
#include "aoclda.h"
static std::set<void *> live_;
static int bad_ = 0;
static void *g_malloc(size_t n) {
    unsigned char *p = (unsigned char *)malloc(n + 96);
    memcpy(p, &n, sizeof n);
    memset(p + 16, 0xA5, 32);
    memset(p + 48, 0xCD, n);
    memset(p + 48 + n, 0xA5, 48);
    live_.insert(p + 48);
    return p + 48;
}
static void chk(void *q) {
    unsigned char *p = (unsigned char *)q - 48;
    size_t n;
    memcpy(&n, p, sizeof n);
    for (int i = 16; i < 48; i++) if (p[i] != 0xA5) bad_ = 1;
    for (int i = 0; i < 48; i++) if (p[48 + n + i] != 0xA5) bad_ = 1;
}
static void g_free(void *q) {
    if (!q) return;
    if (!live_.count(q)) { bad_ = 1; return; }
    chk(q);
    live_.erase(q);
    unsigned char *p = (unsigned char *)q - 48;
    size_t n;
    memcpy(&n, p, sizeof n);
    memset(q, 0xDD, n);
    free(p);
}
#define malloc g_malloc
#define free g_free
#include "da_vector.hpp"
#undef malloc
#undef free
extern "C" int dv_guard() { for (void *q : live_) chk(q); int b = bad_; bad_ = 0; return b; }
extern "C" int dv_live() { return (int)live_.size(); }
extern "C" int dv_live_reset() { int n = (int)live_.size(); live_.clear(); return n; }
#define D(T, S)                                                                                       \
    using V##S = da_vector::da_vector<T>;                                                             \
    extern "C" void *dv_new_##S() { return new V##S(); }                                              \
    extern "C" void dv_newn_##S(V##S *v, size_t n) { v->~V##S(); new (v) V##S(n); }                   \
    extern "C" void dv_del_##S(V##S *v) { delete v; }                                                 \
    extern "C" void dv_push_##S(V##S *v, T x) { v->push_back(x); }                                    \
    extern "C" void dv_pushself_##S(V##S *v, size_t i) { v->push_back((*v)[i]); }                     \
    extern "C" void dv_append_##S(V##S *v, V##S *w) { v->append(*w); }                                \
    extern "C" void dv_appendstd_##S(V##S *v, T *x, size_t n) { std::vector<T> w(x, x + n); v->append(w); } \
    extern "C" void dv_resize_##S(V##S *v, size_t n) { v->resize(n); }                                \
    extern "C" void dv_reserve_##S(V##S *v, size_t n) { v->reserve(n); }                              \
    extern "C" void dv_clear_##S(V##S *v) { v->clear(); }                                             \
    extern "C" void dv_copy_##S(V##S *v, V##S *w) { *v = *w; }                                        \
    extern "C" void dv_move_##S(V##S *v, V##S *w) { *v = std::move(*w); }                             \
    extern "C" void dv_movector_##S(V##S *v, V##S *w) { v->~V##S(); new (v) V##S(std::move(*w)); }    \
    extern "C" void dv_set_##S(V##S *v, size_t i, T x) { (*v)[i] = x; }                               \
    extern "C" size_t dv_size_##S(const V##S *v) { return v->size(); }                                \
    extern "C" size_t dv_cap_##S(const V##S *v) { return v->capacity(); }                             \
    extern "C" const T *dv_data_##S(const V##S *v) { return v->data(); }
D(int, i) D(float, f) D(double, d)
