// Compiled, never run: the life of pointers that share an object.
#include <new>
#include <tensor/refcount.h>
namespace probe {
struct Object { ~Object(); int value; };
typedef tensor::shared_ptr<Object> S;
void share_new(void *o, Object *x) { new (o) S(x); }
void share_copy(void *o, const S &p) { new (o) S(p); }
void share_end(S *p) { p->~S(); }
void share_assign(S &a, const S &b) { a = b; }
Object *share_arrow(const S &p) { return p.operator->(); }
Object *share_star(const S &p) { return &*p; }
}
