#include "common/scoring.cpp"
using namespace ARCH::da_decision_forest;
typedef std::vector<da_int> V;
extern "C" {
float sg_f(int n, int C, int *c) { V v(c, c + C); return gini_score<float>(n, C, v); }
double sg_d(int n, int C, int *c) { V v(c, c + C); return gini_score<double>(n, C, v); }
float se_f(int n, int C, int *c) { V v(c, c + C); return entropy_score<float>(n, C, v); }
double se_d(int n, int C, int *c) { V v(c, c + C); return entropy_score<double>(n, C, v); }
float sm_f(int n, int C, int *c) { V v(c, c + C); return misclassification_score<float>(n, C, v); }
double sm_d(int n, int C, int *c) { V v(c, c + C); return misclassification_score<double>(n, C, v); }
}
