// Emits the functions that write vectors, tensors and matrices as text, so that their bodies can be analysed. Nothing here is ever executed.
#include <tensor/tensor.h>
#include <tensor/io.h>
namespace tensor {
template std::ostream &operator<<(std::ostream &s, const Vector<double> &t);
template std::ostream &operator<<(std::ostream &s, const Vector<cdouble> &t);
template std::ostream &operator<<(std::ostream &s, const Vector<tensor::index> &t);
template std::ostream &operator<<(std::ostream &s, const Tensor<double> &t);
template std::ostream &operator<<(std::ostream &s, const Tensor<cdouble> &t);
template std::ostream &operator<<(std::ostream &s, const Sparse<double> &t);
template std::ostream &operator<<(std::ostream &s, const Sparse<cdouble> &t);
template std::ostream &operator<<(std::ostream &s, const MatrixForm<double> &t);
template std::ostream &operator<<(std::ostream &s, const MatrixForm<cdouble> &t);
template std::ostream &operator<<(std::ostream &s, const StaticVector<double, 1> &t);
template std::ostream &operator<<(std::ostream &s, const StaticVector<double, 2> &t);
template std::ostream &operator<<(std::ostream &s, const StaticVector<double, 3> &t);
template std::ostream &operator<<(std::ostream &s, const StaticVector<tensor::index, 3> &t);
}
