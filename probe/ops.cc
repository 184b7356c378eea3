// Instantiates / emits the header-only part of the public API so that its bodies can be analysed.
// Nothing here is ever executed.
#include <cassert>
#include <cmath>
#include <complex>
#include <functional>
#include <algorithm>
#include <vector>
#include <string>
#include <iostream>
#include <iomanip>
#include <numeric>
#define inline inline __attribute__((used))
#include <tensor/tensor.h>
#include <tensor/sparse.h>
#include <tensor/rand.h>
#undef inline
namespace tensor {
#define TT(R, A, B) \
  template Tensor<R> operator+(const Tensor<A> &, const Tensor<B> &); \
  template Tensor<R> operator-(const Tensor<A> &, const Tensor<B> &); \
  template Tensor<R> operator*(const Tensor<A> &, const Tensor<B> &); \
  template Tensor<R> operator/(const Tensor<A> &, const Tensor<B> &);
#define TN(R, A, B) \
  template Tensor<R> operator+(const Tensor<A> &, const B &); \
  template Tensor<R> operator-(const Tensor<A> &, const B &); \
  template Tensor<R> operator*(const Tensor<A> &, const B &); \
  template Tensor<R> operator/(const Tensor<A> &, const B &);
#define NT(R, A, B) \
  template Tensor<R> operator+(const A &, const Tensor<B> &); \
  template Tensor<R> operator-(const A &, const Tensor<B> &); \
  template Tensor<R> operator*(const A &, const Tensor<B> &); \
  template Tensor<R> operator/(const A &, const Tensor<B> &);
#define ALL(R, A, B) TT(R, A, B) TN(R, A, B) NT(R, A, B)
ALL(double, double, double)
ALL(cdouble, cdouble, cdouble)
ALL(cdouble, double, cdouble)
ALL(cdouble, cdouble, double)
#define ASG(A, B) \
  template Tensor<A> &operator+=(Tensor<A> &, const Tensor<B> &); \
  template Tensor<A> &operator-=(Tensor<A> &, const Tensor<B> &); \
  template Tensor<A> &operator*=(Tensor<A> &, const Tensor<B> &); \
  template Tensor<A> &operator/=(Tensor<A> &, const Tensor<B> &);
ASG(double, double) ASG(cdouble, cdouble) ASG(cdouble, double)
template Tensor<double> operator-(const Tensor<double> &);
template Tensor<cdouble> operator-(const Tensor<cdouble> &);
}
// in-place operations with a scalar, through the overloads a user would reach
#define IP(N, A, B) \
  void probe_add_##N(tensor::Tensor<A> &a, const B &b) { a += b; } \
  void probe_sub_##N(tensor::Tensor<A> &a, const B &b) { a -= b; } \
  void probe_mul_##N(tensor::Tensor<A> &a, const B &b) { a *= b; } \
  void probe_div_##N(tensor::Tensor<A> &a, const B &b) { a /= b; }
using tensor::cdouble;
IP(dd, double, double) IP(zz, cdouble, cdouble) IP(zd, cdouble, double)
namespace probe {
using namespace tensor;
bool same_vectors(const Vector<tensor::index> &a, const Vector<tensor::index> &b) { return a == b; }
}
