// instantiates the interval containers so that their code is in one unit
#include "interval_set.hpp"
#include "interval_map.hpp"
#include "interval_set.cpp"
template class da_interval::interval_map<int>;
template class da_interval::interval_map<double>;
// uses of inline members, so that the compiler emits them
void use_interval_set(da_interval::interval_set &s) {
    s.empty();
    auto b = s.begin(), e = s.end();
    ++b; b++;
    (void)(*b); (void)(b->lower); (void)(b == e); (void)(b != e);
}
da_interval::interval use_interval(da_interval::interval a, const da_interval::interval &b) {
    a.is_valid_idx(3);
    return a.intersect(b);
}
