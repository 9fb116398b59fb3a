// uses of the text-to-number conversions, so that the compiler emits them (C16)
#include "char_to_num.hpp"
da_status use_num(parser_t *p, const char *s, char **e, double *d, float *f, int64_t *l, int32_t *i, uint8_t *b, int *m) {
    da_csv::char_to_num(p, s, e, d, m);
    da_csv::char_to_num(p, s, e, f, m);
    da_csv::char_to_num(p, s, e, l, m);
    da_csv::char_to_num(p, s, e, b, m);
    return da_csv::char_to_num(p, s, e, i, m);
}
