#include "interval_set.hpp"
#include "interval_map.hpp"
#include "interval_set.cpp"
using namespace da_interval;
using S = interval_set;
using M = interval_map<int>;
extern "C" {
void *is_new() { return new S(); }
void is_del(S *s) { delete s; }
int is_insert(S *s, int a, int b) { return s->insert({a, b}); }
int is_erase(S *s, int a, int b) { return s->erase({a, b}); }
int is_empty(S *s) { return s->empty(); }
void is_clear(S *s) { s->clear(); }
int is_list(S *s, int *out, int cap) { int n = 0; for (auto it = s->begin(); it != s->end(); ++it) { if (n < cap) { out[2*n] = (*it).lower; out[2*n+1] = it->upper; } n++; } return n; }
int is_list2(S *s, int *out, int cap) { int n = 0; for (auto it = s->begin(); it != s->end(); it++) { if (n < cap) { out[2*n] = (*it).lower; out[2*n+1] = it->upper; } n++; } return n; }
int is_find(S *s, int k, int *out) { interval i; bool r = s->find(k, i); if (r) { out[0] = i.lower; out[1] = i.upper; } return r; }
int is_findit(S *s, int k, int *out) { auto it = s->find(k); if (it == s->end()) return 0; out[0] = it->lower; out[1] = it->upper; return 1; }
void *im_new() { return new M(); }
void im_del(M *s) { delete s; }
int im_insert(M *s, int a, int b, int v) { return s->insert({a, b}, v); }
int im_empty(M *s) { return s->empty(); }
int im_list(M *s, int *out, int cap) { int n = 0; for (auto it = s->begin(); it != s->end(); ++it) { if (n < cap) { out[3*n] = (*it).first.lower; out[3*n+1] = it->first.upper; out[3*n+2] = it->second; } n++; } return n; }
int im_list2(M *s, int *out, int cap) { int n = 0; for (auto it = s->begin(); it != s->end(); it++) { if (n < cap) { out[3*n] = (*it).first.lower; out[3*n+1] = it->first.upper; out[3*n+2] = it->second; } n++; } return n; }
int im_find(M *s, int k, int *out) { out[0] = out[1] = out[2] = -77; return s->find(k, out[2], out[0], out[1]); }
static int at(M *s, M::iterator it, int *out) { if (it == s->end()) return 0; out[0] = it->first.lower; out[1] = it->first.upper; out[2] = it->second; return 1; }
int im_findit(M *s, int k, int *out) { return at(s, s->find(k), out); }
int im_closest(M *s, int k, int *out) { return at(s, s->closest_interval(k), out); }
int im_erase(M *s, int k, int *out) { return at(s, s->erase(k), out); }
static M::iterator nth(M *s, int n) { auto it = s->begin(); while (n-- > 0 && it != s->end()) ++it; return it; }
int im_erasepos(M *s, int n, int *out) { return at(s, s->erase(nth(s, n)), out); }
int im_eraserange(M *s, int a, int b, int *out) { return at(s, s->erase(nth(s, a), nth(s, b)), out); }
void iv_intersect(int a, int b, int c, int d, int *out) { interval x(a, b), y(c, d), r = x.intersect(y); out[0] = r.lower; out[1] = r.upper; out[2] = x.contains(c); out[3] = x == y; out[4] = x.is_valid_idx(d); }
}
