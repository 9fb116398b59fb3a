// native entry points for the options (C14)
#include "options.hpp"
#include <cstring>
using namespace da_options;
static std::shared_ptr<OptionRegistry> R;
extern "C" void op_new() { R = std::make_shared<OptionRegistry>(); }
extern "C" void op_lock(int l) { if (l) R->lock(); else R->unlock(); }
static int reg(std::function<std::shared_ptr<OptionBase>()> f) { try { return R->register_opt(f()); } catch (std::invalid_argument &) { return -1; } }
extern "C" int op_int(const char *n, int lo, int lb, int up, int ub, int d, int strict) { return reg([&] { return std::make_shared<OptionNumeric<da_int>>(n, "", lo, (lbound_t)lb, up, (ubound_t)ub, d, "", strict); }); }
extern "C" int op_dbl(const char *n, double lo, int lb, double up, int ub, double d, int strict) { return reg([&] { return std::make_shared<OptionNumeric<double>>(n, "", lo, (lbound_t)lb, up, (ubound_t)ub, d, "", strict); }); }
extern "C" int op_flt(const char *n, float lo, int lb, float up, int ub, float d, int strict) { return reg([&] { return std::make_shared<OptionNumeric<float>>(n, "", lo, (lbound_t)lb, up, (ubound_t)ub, d, "", strict); }); }
extern "C" int op_bool(const char *n, int d) { return reg([&] { return std::make_shared<OptionNumeric<bool>>(n, "", d != 0); }); }
extern "C" int op_str(const char *n, const char **lab, const int *id, int k, const char *d, int strict) { return reg([&] { std::map<std::string, da_int> m; for (int i = 0; i < k; i++) m[lab[i]] = id[i]; return std::make_shared<OptionString>(n, "", m, d, strict); }); }
extern "C" int op_set_i(const char *n, int v) { return R->set(n, (da_int)v); }
extern "C" int op_set_d(const char *n, double v) { return R->set(n, v); }
extern "C" int op_set_f(const char *n, float v) { return R->set(n, v); }
extern "C" int op_set_b(const char *n, int v) { return R->set(n, v != 0); }
extern "C" int op_set_s(const char *n, const char *v, int c) { return c ? R->set(n, v) : R->set(n, std::string(v)); }
extern "C" int op_get_i(const char *n, int *v) { da_int x = *v; int s = R->get(n, x); *v = x; return s; }
extern "C" int op_get_d(const char *n, double *v) { return R->get(n, *v); }
extern "C" int op_get_f(const char *n, float *v) { return R->get(n, *v); }
extern "C" int op_get_b(const char *n, unsigned char *v) { bool x = *v; int s = R->get(n, x); *v = x; return s; }
extern "C" int op_get_s(const char *n, char *v, int *id) { std::string t = v; da_int k = *id; int s; try { s = R->get(n, t, k); } catch (std::exception &) { return -2; } std::string u = v; int s2 = R->get(n, u); if (s2 != s || u != t) return -3; std::strcpy(v, t.c_str()); *id = k; return s; }
extern "C" int op_map(const char *n, char *v, int *id, int by) { std::string t = v; da_int k = *id; int s = R->query_map(n, t, k, by); std::strcpy(v, t.c_str()); *id = k; return s; }
// a saved registry, loaded back from bytes
#include "model_persistence.hpp"
extern "C" int op_save(unsigned char *out, int cap) { da_model_persistence::serialization_buffer b(da_handle_uninitialized); std::vector<char> v; b.set_buffer_data(&v); b.add_size(R->compute_serialized_size()); size_t want = R->compute_serialized_size(); b.reserve(); b.set_mode(da_model_persistence::serialize);
    int s = R->save_registry(b); if (s) return -s; if (v.size() != want) return -99999; if ((int)v.size() > cap) return -99998; std::memcpy(out, v.data(), v.size()); return (int)v.size(); }
extern "C" int op_load(const char *in, long n) { da_model_persistence::serialization_buffer b(da_handle_uninitialized); int s = b.set_buffer_data(in, n); if (s) return s; return R->load_registry(b); }
