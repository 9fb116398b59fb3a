#include "common/idx_sorting.cpp"
using namespace ARCH;
namespace df = ARCH::da_decision_forest;
template <class T> static void go(int what, int *I, T *V, int N, int s, int n, int d) {
    std::vector<da_int> a(I, I + N); std::vector<T> b(V, V + N);
    if (what == 0) df::multi_range_intro_sort(a, b, s, n, d);
    else if (what == 1) df::multi_range_heap_sort(a, b, s, n);
    else if (what == 2) df::multi_range_heapify(a, b, s, n, d);
    else df::swap(a, b, s, n);
    std::copy(a.begin(), a.end(), I); std::copy(b.begin(), b.end(), V);
}
extern "C" {
void idx_float(int w, int *I, float *V, int N, int s, int n, int d) { go(w, I, V, N, s, n, d); }
void idx_double(int w, int *I, double *V, int N, int s, int n, int d) { go(w, I, V, N, s, n, d); }
void idx_int(int w, int *I, int *V, int N, int s, int n, int d) { go(w, I, V, N, s, n, d); }
int idx_compress(int *I, int N, int *C, int NC, int *n) {
    std::vector<da_int> a(I, I + N), c(C, C + NC);
    int r = df::compress_count_occurences(a, c);
    *n = a.size(); std::copy(a.begin(), a.end(), I); std::copy(c.begin(), c.end(), C);
    return r;
}
void idx_bucket(int *I, double *V, int N, int nc, int s, int n, int ld) {
    std::vector<da_int> a(I, I + N), bk((size_t)ld * nc, -7), bi(nc, -7); std::vector<double> b(V, V + N);
    df::bucket_sort_samples(a, b, nc, s, n, ld, bk, bi);
    std::copy(a.begin(), a.end(), I); std::copy(b.begin(), b.end(), V);
}
}
