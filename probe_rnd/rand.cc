// Emits the inline random number functions, so that their bodies can be analysed. Nothing here is ever executed.
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <algorithm>
#include <vector>
#include <string>
#include <iostream>
#include <iomanip>
#include <numeric>
#define inline inline __attribute__((used))
#include <tensor/rand.h>
#undef inline
namespace tensor {
template double rand<double>(double);
template double rand<double>(double, double);
template float rand<float>(float);
template float rand<float>(float, float);
}
