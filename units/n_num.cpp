// native entry points for the text-to-number conversions (C16)
#include "char_to_num.hpp"
#include <string.h>
static parser_t P(char dec, char sci, char th) { parser_t p; memset((void *)&p, 0, sizeof p); p.decimal = dec; p.sci = sci; p.thousands = th; p.skip_trailing = 1; p.int_min = INT64_MIN; p.int_max = INT64_MAX; return p; }
#define ONE(T, S) \
extern "C" int cn_##S(const char *s, char dec, char sci, char th, int null, T *out, int *mi, long *used) { parser_t p = P(dec, sci, th); char *e = (char *)s; \
    int r = da_csv::char_to_num(&p, s, null ? nullptr : &e, out, null ? nullptr : mi); *used = e - s; return r; }
ONE(double, d) ONE(float, f) ONE(int64_t, l) ONE(int32_t, i) ONE(uint8_t, b)
