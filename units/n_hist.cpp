#include "common/histogram.cpp"
#include <cstring>
#include <omp.h>
using namespace ARCH::da_decision_forest;
template <class T> static int go(int what, const T *X, int n, int nf, int ldx, int mb, T *thr, int *nb, unsigned short *bd, int *mbo) {
    try {
        bins<T> b(mb, n, nf); *mbo = b.max_bin;
        int r = 0;
        if (what == 0) r = b.compute_histograms(X, n, nf, ldx);
        else {
            b.get_bins(); std::vector<T> v; 
            for (int j = 0; j < nf; j++) { v.assign(7, T(3)); v.insert(v.end(), X + (size_t)j * ldx, X + (size_t)j * ldx + n); if (what == 1) b.compute_thresholds(v, 7, j); else b.compute_thresholds_continuous(v, 7, j); }
        }
        if ((int)b.thresholds.size() != (b.max_bin - 1) * nf || (int)b.nbins.size() != nf || (int)b.binned_data.size() != n * nf) return -5;
        std::copy(b.thresholds.begin(), b.thresholds.end(), thr); std::copy(b.nbins.begin(), b.nbins.end(), nb); std::copy(b.binned_data.begin(), b.binned_data.end(), bd);
        return r;
    } catch (std::invalid_argument &) { return -9; }
}
extern "C" {
int hist_f(int w, const float *X, int n, int nf, int ldx, int mb, float *thr, int *nb, unsigned short *bd, int *o) { return go(w, X, n, nf, ldx, mb, thr, nb, bd, o); }
int hist_d(int w, const double *X, int n, int nf, int ldx, int mb, double *thr, int *nb, unsigned short *bd, int *o) { return go(w, X, n, nf, ldx, mb, thr, nb, bd, o); }
}
