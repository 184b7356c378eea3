// Instantiates every member of the reference-counted storage so that its body can be analysed.
// Nothing here is ever executed.
#include <cassert>
#include <cstring>
#include <cmath>
#include <complex>
#include <functional>
#include <algorithm>
#include <vector>
#include <string>
#include <iostream>
#define inline inline __attribute__((used))
#include <tensor/tensor.h>
#undef inline
namespace tensor {
template class RefPointer<double>;
template class RefPointer<cdouble>;
template class RefPointer<long>;
template class RefPointer<bool>;
template class RefPointer<int>;
template class Vector<double>;
template class Vector<cdouble>;
template class Vector<long>;
template class Vector<bool>;
template class Vector<int>;
}
