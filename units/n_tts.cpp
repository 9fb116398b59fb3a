// native entry points for replaying C01 inputs against the real code
#include "train_test_split.hpp"
#define D(T, S)                                                                                                     \
    extern "C" int tts_##S(int order, int m, int n, const T *X, int ldx, int tr, int te, const int *sh, T *a, int lda, T *b, int ldb) { \
        return (int)ARCH::da_utils::train_test_split<T>((da_order)order, m, n, X, ldx, tr, te, sh, a, lda, b, ldb);  \
    }
D(double, d) D(float, f) D(int, i)
