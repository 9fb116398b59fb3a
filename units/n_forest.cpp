// native entry points for decision trees and forests (C18): train, hand out the trees as they are stored, predict; compiled with -fno-access-control
#include <cstring>
#include "aoclda.h"
#include "forest/decision_forest.hpp"
#include "tree/decision_tree.hpp"
using namespace ARCH::da_decision_forest;
template <class T> static int dump(decision_tree<T> &t, int cap, int *I, T *F, T *P) {
    int n = t.n_nodes;
    if (n > cap || n > (int)t.tree.size()) return -n;
    for (int i = 0; i < n; i++) {
        auto &d = t.tree[i];
        int v[11] = {d.is_leaf, d.left_child_idx, d.right_child_idx, d.feature, (int)d.prop, d.category, d.y_pred, d.n_samples, d.depth, d.parent_idx, d.end_idx - d.start_idx + 1};
        std::memcpy(I + 11 * i, v, sizeof v); F[i] = d.x_threshold;
        for (int c = 0; c < t.n_class; c++) P[(size_t)i * t.n_class + c] = t.class_props.empty() ? T(-1) : t.class_props[(size_t)i * t.n_class + c];
    }
    return n;
}
template <class T> static void binned(bins<T> *b, size_t k, int *B) { for (size_t i = 0; i < k; i++) B[i] = b ? b->binned_data[i] : -1; }
// oi: max_depth min_node method nfeat seed hist bins detect_cat cat_strat ntree bootstrap block
template <class T> static int run(int kind, int order, int n, int p, const T *X, int ld, const int *y, int nc, const int *usr, const int *oi, T thresh, T factor, int cap, int *Bn,
                                  int *N, int *I, T *F, T *P, int *W, int m, const T *Z, int ldz, int *yp, T *pr, int ldp, T *lg, const int *yt, T *sc, int *st) {
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    const char *S[] = {"gini", "cross-entropy", "misclassification-error"};
    auto common = [&](auto &h) {
        h.order = (da_order)order; h.opts.set("storage order", order ? "column-major" : "row-major");
        auto &o = h.opts; int b = 0;
        b |= o.set("maximum depth", (da_int)oi[0]); b |= o.set("node minimum samples", (da_int)oi[1]); b |= o.set("scoring function", S[oi[2]]);
        b |= o.set("maximum features", (da_int)oi[3]); b |= o.set("seed", (da_int)oi[4]); b |= o.set("histogram", oi[5] ? "yes" : "no");
        b |= o.set("maximum bins", (da_int)oi[6]); b |= o.set("category split strategy", oi[8] ? "one-vs-all" : "ordered"); b |= o.set("feature threshold", thresh);
        b |= o.set("minimum impurity decrease", (T)0); b |= o.set("minimum split score", (T)0);
        return b;
    };
    if (kind == 0) {
        decision_tree<T> t(err);
        if (common(t) | t.opts.set("detect categorical data", oi[7] ? "yes" : "no")) return -1;
        if ((st[0] = t.set_training_data(n, p, X, ld, y, nc, 0, nullptr, usr)) || (st[1] = t.fit())) return 1;
        N[0] = dump(t, cap, I, F, P); binned(t.X_binned, (size_t)n * p, Bn); for (int i = 0; i < n; i++) W[i] = 1;
        st[2] = t.predict(m, p, Z, ldz, yp); st[3] = t.predict_proba(m, p, Z, ldz, pr, t.n_class, ldp); st[4] = t.predict_log_proba(m, p, Z, ldz, lg, t.n_class, ldp); st[5] = t.score(m, p, Z, ldz, yt, sc);
        return 0;
    }
    decision_forest<T> f(err);
    if (common(f) | f.opts.set("number of trees", (da_int)oi[9]) | f.opts.set("bootstrap", oi[10] ? "yes" : "no") | f.opts.set("bootstrap samples factor", factor) | f.opts.set("features selection", "custom") | f.opts.set("block size", (da_int)oi[11])) return -1;
    if ((st[0] = f.set_training_data(n, p, X, ld, y, nc, usr)) || (st[1] = f.fit())) return 1;
    binned(f.X_binned, (size_t)n * p, Bn);
    for (int k = 0; k < oi[9]; k++) {
        auto &t = *f.forest[k];
        N[k] = dump(t, cap, I + (size_t)k * cap * 11, F + (size_t)k * cap, P + (size_t)k * cap * f.n_class);
        for (int i = 0; i < n; i++) W[(size_t)k * n + i] = oi[10] ? t.bootstrap_sample_frequency[i] : 1;
    }
    st[2] = f.predict(m, p, Z, ldz, yp); st[3] = f.predict_proba(m, p, Z, ldz, pr, f.n_class, ldp); st[4] = f.predict_log_proba(m, p, Z, ldz, lg, f.n_class, ldp); st[5] = f.score(m, p, Z, ldz, yt, sc);
    return 0;
}
#define ONE(T, S) extern "C" int df_##S(int kind, int order, int n, int p, const T *X, int ld, const int *y, int nc, const int *usr, const int *oi, T th, T fa, int cap, int *Bn, int *N, int *I, T *F, T *P, int *W, int m, const T *Z, int ldz, int *yp, T *pr, int ldp, T *lg, const int *yt, T *sc, int *st) { \
    return run<T>(kind, order, n, p, X, ld, y, nc, usr, oi, th, fa, cap, Bn, N, I, F, P, W, m, Z, ldz, yp, pr, ldp, lg, yt, sc, st); }
ONE(double, d) ONE(float, f)
