// instantiates the real da_vector header for the verifier and for native replays
#include <cstdlib>
#include <cstring>
#include <new>
#include "da_vector.hpp"
template class da_vector::da_vector<int>;
template class da_vector::da_vector<double>;
template class da_vector::da_vector<float>;
