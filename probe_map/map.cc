// Compiled, never run: closures over functions and maps of functions, as a program makes them.
#include <tensor/map.h>
#include <tensor/linalg.h>
using namespace tensor;
typedef double D;
typedef const RTensor &R;
extern D ext2(D, D);
extern D ext3(D, D, D);
extern D ext4(D, D, D, D);
extern D ext5(D, D, D, D, D);
extern D ext6(D, D, D, D, D, D);
extern int ext_mixed(int, const D *, long, char);
extern double ext_map(const double &);
namespace probe {
D closure_2(D x, D a) { return with_args(ext2, a)(x); }
D closure_3(D x, D a, D b) { return with_args(ext3, a, b)(x); }
D closure_4(D x, D a, D b, D c) { return with_args(ext4, a, b, c)(x); }
D closure_5(D x, D a, D b, D c, D d) { return with_args(ext5, a, b, c, d)(x); }
D closure_6(D x, D a, D b, D c, D d, D e) { return with_args(ext6, a, b, c, d, e)(x); }
int closure_mixed(int x, const D *a, long b, char c) { return with_args(ext_mixed, a, b, c)(x); }
D fmap(const D &x) { typedef D (*fn)(const D &); return FunctionMap<fn, D>(ext_map).FunctionMap<fn, D>::operator()(x); }
D plain(const D &x) { return Map<D>().Map<D>::operator()(x); }
struct F { const RTensor operator()(const RTensor &) const; const CTensor operator()(const CTensor &) const; };
RTensor cgs_r(const F &f, const RTensor &b, const RTensor *x, int n, double tol) { return linalg::cgs(f, b, x, n, tol); }
CTensor cgs_z(const F &f, const CTensor &b, const CTensor *x, int n, double tol) { return linalg::cgs(f, b, x, n, tol); }
}
#include <new>
namespace probe {
typedef Closure1<D, D, D, D> C1;
typedef Closure2<D, D, D, D, D, D> C2;
typedef Closure3<D, D, D, D, D, D, D, D> C3;
void make_1(void *o, D a) { new (o) C1(with_args(ext2, a)); }
void make_2(void *o, D a, D b) { new (o) C2(with_args(ext3, a, b)); }
void make_3(void *o, D a, D b, D c) { new (o) C3(with_args(ext4, a, b, c)); }
D power_r(const F &f, size_t n, RTensor *v, size_t k, double tol) { return linalg::eig_power(f, n, v, k, tol); }
void power_z(cdouble *o, const F &f, size_t n, CTensor *v, size_t k, double tol) { *o = linalg::eig_power(f, n, v, k, tol); }
RTensor eigs_r(const F &f, size_t n, int t, size_t k, RTensor *v, bool *c) { return linalg::eigs(f, n, t, k, v, c); }
CTensor eigs_z(const F &f, size_t n, int t, size_t k, CTensor *v, bool *c) { return linalg::eigs(f, n, t, k, v, c); }
}
