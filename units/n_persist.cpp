// native entry points for model persistence (C12)
#include "basic_handle.hpp"
#include "da_vector.hpp"
#include "model_persistence.hpp"
#include "options.hpp"
#include "linmod_types.hpp"
#include <cstring>
#include <string>
#include <vector>
using namespace da_model_persistence;
template <class T> using DV = da_vector::da_vector<T>;
// a sequence of values: kind, then contents
struct Item { int kind; long n; std::vector<double> v; std::vector<long> lens; };
template <class C> static void fill(C &c, const double *v, long n) { c.resize(n); for (long i = 0; i < n; i++) c[i] = (typename C::value_type)v[i]; }
template <class C> static bool same(C &c, const double *v, long n) { if ((long)c.size() != n) return false; for (long i = 0; i < n; i++) { auto w = (typename C::value_type)v[i]; if (std::memcmp(&c[i], &w, sizeof w)) return false; } return true; }
template <class T> static int one(serialization_buffer &b, const Item &t, bool rd) {
    T x = rd ? T() : (T)t.v[0]; int s = b.dispatch_buffer_io(x); if (s) return s; T w = (T)t.v[0]; return rd && std::memcmp(&x, &w, sizeof x) ? -1 : 0;
}
template <class C> static int many(serialization_buffer &b, const Item &t, bool rd) {
    C x; if (!rd) fill(x, t.v.data(), t.n); else fill(x, t.v.data(), t.n / 2); int s = b.dispatch_buffer_io(x); if (s) return s; return rd && !same(x, t.v.data(), t.n) ? -1 : 0;
}
template <class T> static int nested(serialization_buffer &b, const Item &t, bool rd) {
    std::vector<DV<T>> x; long p = 0; if (!rd) { x.resize(t.lens.size()); for (size_t i = 0; i < t.lens.size(); i++) { fill(x[i], t.v.data() + p, t.lens[i]); p += t.lens[i]; } }
    int s = b.dispatch_buffer_io(x); if (s || !rd) return s; if (x.size() != t.lens.size()) return -1; p = 0;
    for (size_t i = 0; i < t.lens.size(); i++) { if (!same(x[i], t.v.data() + p, t.lens[i])) return -1; p += t.lens[i]; } return 0;
}
template <class T> static int user(serialization_buffer &b, const Item &t, bool rd) {
    long m = t.lens[0], n = t.lens[1], ld = t.lens[2], ord = t.lens[3], k = t.lens[4]; if (rd) { // dense, in storage order
        std::vector<T> x; int s = b.dispatch_buffer_io(x); if (s) return s; if ((long)x.size() != (k ? 0 : m * n)) return -1; if (k) return 0; long e = 0;
        bool col = n == 1 || ord == column_major; long o = col ? n : m, in = col ? m : n; for (long i = 0; i < o; i++) for (long j = 0; j < in; j++, e++) { T w = (T)t.v[i * ld + j]; if (std::memcmp(&w, &x[e], sizeof w)) return -1; } return 0; }
    std::vector<T> x(t.v.size()); for (size_t i = 0; i < x.size(); i++) x[i] = (T)t.v[i];
    return b.serialize_user_data(k ? (const T *)nullptr : x.data(), (da_order)ord, (da_int)m, (da_int)n, (da_int)ld);
}
static int io(serialization_buffer &b, const Item &t, bool rd) {
    switch (t.kind) {
    case 0: return one<bool>(b, t, rd); case 1: return one<da_int>(b, t, rd); case 2: return one<float>(b, t, rd); case 3: return one<double>(b, t, rd); case 4: return one<da_order>(b, t, rd);
    case 5: return many<std::string>(b, t, rd); case 6: return many<std::vector<da_int>>(b, t, rd); case 7: return many<std::vector<float>>(b, t, rd); case 8: return many<std::vector<double>>(b, t, rd);
    case 9: return many<DV<da_int>>(b, t, rd); case 10: return many<DV<float>>(b, t, rd); case 11: return many<DV<double>>(b, t, rd);
    case 12: return nested<da_int>(b, t, rd); case 13: return nested<float>(b, t, rd); case 14: return nested<double>(b, t, rd);
    case 15: return user<da_int>(b, t, rd); case 16: return user<float>(b, t, rd); case 17: return user<double>(b, t, rd);
    case 18: return one<da_metric>(b, t, rd); default: return one<linmod_model>(b, t, rd);
    }
}
#define LD std::vector<Item> l; for (int i = 0; i < k; i++) { Item t; t.kind = kind[i]; t.n = n[i]; t.v.assign(v, v + nv[i]); v += nv[i]; t.lens.assign(lens, lens + nl[i]); lens += nl[i]; l.push_back(t); }
// saves the sequence: reserve, then write; the bytes in out. Returns the number of bytes, or minus the status; -1000 when the space reserved is not what is written
extern "C" long ps_save(int k, const int *kind, const long *n, const long *nv, const double *v, const long *nl, const long *lens, char *out, long cap, int meta) {
    LD; std::vector<char> o; serialization_buffer b(da_handle_linmod); b.set_buffer_data(&o); size_t head = b.get_size();
    for (auto &t : l) { int s = io(b, t, false); if (s) return -s; }
    if (b.reserve()) return -900; size_t room = b.get_size(); const char *d = o.data(); b.set_mode(serialize);
    if (meta) { int s = b.serialize_metadata(8, 50400); if (s) return -s; if (o.size() != head) return -1000; }
    for (auto &t : l) { int s = io(b, t, false); if (s) return -s; }
    if (o.size() + (meta ? 0 : head) != room) return -1000; if (o.data() != d) return -1001; if ((long)o.size() > cap) return -1002; if (meta) { da_int x = 1; if (b.serialize_data(x) == 0) return -1003; }
    std::memcpy(out, o.data(), o.size()); return (long)o.size();
}
// loads the sequence from len bytes; the number of items loaded equal is in *done. Returns a status, -1 when something loaded differs
extern "C" int ps_load(int k, const int *kind, const long *n, const long *nv, const double *v, const long *nl, const long *lens, const char *in, long len, int meta, int *done) {
    LD; serialization_buffer b(da_handle_uninitialized); *done = 0; int s = b.set_buffer_data(in, len); if (s) return s;
    if (meta) { da_int p = 0; s = b.deserialize_metadata(p); if (s) return s; if (p != 8 || b.get_handle_type() != da_handle_linmod || b.get_saved_serialization_version() != 50400) return -1; }
    for (auto &t : l) { s = io(b, t, true); if (s) return s; ++*done; } return 0;
}
