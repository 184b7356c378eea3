// Lists of elements as users write them, and iota, so that they can be analysed. Nothing here is ever executed.
#include <tensor/tensor.h>
#include <tensor/gen.h>
#include <tensor/indices.h>
namespace probe {
using namespace tensor;
#define ALL(T, el, g) \
  void list_##g##_1(T &o, el a) { o = T(g << a); } \
  void list_##g##_2(T &o, el a, el b) { o = T(g << a << b); } \
  void list_##g##_3(T &o, el a, el b, el c) { o = T(g << a << b << c); } \
  void list_##g##_4(T &o, el a, el b, el c, el d) { o = T(g << a << b << c << d); }
#define MORE(T, el, g) \
  void list_##g##_5(T &o, el a, el b, el c, el d, el e) { o = T(g << a << b << c << d << e); } \
  void list_##g##_6(T &o, el a, el b, el c, el d, el e, el f) { o = T(g << a << b << c << d << e << f); }
ALL(Indices, tensor::index, igen)
MORE(Indices, tensor::index, igen)
ALL(RTensor, double, rgen)
MORE(RTensor, double, rgen)
ALL(CTensor, cdouble, cgen)
void list_igen_7(Indices &o, tensor::index x0, tensor::index x1, tensor::index x2, tensor::index x3, tensor::index x4, tensor::index x5, tensor::index x6) { o = Indices(igen << x0 << x1 << x2 << x3 << x4 << x5 << x6); }
void list_rgen_7(RTensor &o, double x0, double x1, double x2, double x3, double x4, double x5, double x6) { o = RTensor(rgen << x0 << x1 << x2 << x3 << x4 << x5 << x6); }
void list_igen_8(Indices &o, tensor::index x0, tensor::index x1, tensor::index x2, tensor::index x3, tensor::index x4, tensor::index x5, tensor::index x6, tensor::index x7) { o = Indices(igen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7); }
void list_rgen_8(RTensor &o, double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7) { o = RTensor(rgen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7); }
void list_igen_9(Indices &o, tensor::index x0, tensor::index x1, tensor::index x2, tensor::index x3, tensor::index x4, tensor::index x5, tensor::index x6, tensor::index x7, tensor::index x8) { o = Indices(igen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8); }
void list_rgen_9(RTensor &o, double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7, double x8) { o = RTensor(rgen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8); }
void list_igen_12(Indices &o, tensor::index x0, tensor::index x1, tensor::index x2, tensor::index x3, tensor::index x4, tensor::index x5, tensor::index x6, tensor::index x7, tensor::index x8, tensor::index x9, tensor::index x10, tensor::index x11) { o = Indices(igen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8 << x9 << x10 << x11); }
void list_rgen_12(RTensor &o, double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7, double x8, double x9, double x10, double x11) { o = RTensor(rgen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8 << x9 << x10 << x11); }
void list_igen_17(Indices &o, tensor::index x0, tensor::index x1, tensor::index x2, tensor::index x3, tensor::index x4, tensor::index x5, tensor::index x6, tensor::index x7, tensor::index x8, tensor::index x9, tensor::index x10, tensor::index x11, tensor::index x12, tensor::index x13, tensor::index x14, tensor::index x15, tensor::index x16) { o = Indices(igen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8 << x9 << x10 << x11 << x12 << x13 << x14 << x15 << x16); }
void list_rgen_17(RTensor &o, double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7, double x8, double x9, double x10, double x11, double x12, double x13, double x14, double x15, double x16) { o = RTensor(rgen << x0 << x1 << x2 << x3 << x4 << x5 << x6 << x7 << x8 << x9 << x10 << x11 << x12 << x13 << x14 << x15 << x16); }
void list_xgen_3(RTensor &o, double a, double b, double c) { o = RTensor(xgen << a << b << c); }
void list_gen_3(RTensor &o, double a, double b, double c) { o = RTensor(gen(a) << b << c); }
void list_iota(Indices &o, tensor::index a, tensor::index b, tensor::index s) { o = iota(a, b, s); }
bool same_igen_2(const Indices &v, tensor::index a, tensor::index b) { return v == (igen << a << b); }
bool same_list_2(const Indices &v, tensor::index a, tensor::index b) { return (igen << a << b) == v; }
bool same_igen_3(const Indices &v, tensor::index a, tensor::index b, tensor::index c) { return v == (igen << a << b << c); }
bool same_list_3(const Indices &v, tensor::index a, tensor::index b, tensor::index c) { return (igen << a << b << c) == v; }
bool same_rgen_2(const Vector<double> &v, double a, double b) { return v == (rgen << a << b); }
bool same_rlist_2(const Vector<double> &v, double a, double b) { return (rgen << a << b) == v; }
}
