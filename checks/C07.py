"""Reference counts and lifetime of the storage."""
import storage
from storage import *


def run(ctx):
    ctx.rule("count", "every member leaves each block with exactly as many references as there are handles on it")
    ctx.rule("release", "a block and the elements it owns are freed exactly once, by the member that drops the last handle, and never while another handle exists; foreign data is never freed")
    ctx.rule("allocation", "a new block has count one, the stated length, and room for exactly the elements it records, released the way it was allocated; nothing allocated is lost")
    jobs = [lambda cls=cls, el=el: one(ctx, cls, el) for cls in ("Vector", "RefPointer") for el in ELS]
    for j in jobs:
        j()


def one(ctx, cls, el, want=("count",)):
    try:
        s = Storage(ctx, cls, el)
        find_owned(ctx, s)
    except Lost_ as e:
        ctx.add("%s<%s>" % (cls, el), "count", UNK, str(e), None)
        return
    name = s.cls
    idx = "long" if cls == "Vector" else "unsigned long"
    ptr = el + "*"

    def member(sig, body, other=None):
        check_member(ctx, s, sig, "count", body, other)

    def cur(fin):
        return fin.get(T0, s.B)

    def fin_arg(fin, k):
        a = fin.w.fn["args"][k]
        return P.a("argp", k) if a["ty"] == "ptr" else P.a("arg", k, a["ty"])

    # constructors
    member("%s()" % name, lambda fin, sh: fresh_block(s, fin, cur(fin), ZERO))
    member("%s(%s)" % (name, idx), lambda fin, sh: fresh_block(s, fin, cur(fin), fin_arg(fin, 1)))
    member("Vector(long, %s)" % ptr, lambda fin, sh: fresh_block(s, fin, cur(fin), fin_arg(fin, 1), data=fin_arg(fin, 2)))

    def copy(fin, sh):
        c = cur(fin)
        if c.single() and c.single()[0] == "heap":
            return fresh_block(s, fin, c, s.size(s.O)) or unchanged(s, fin, s.O)
        return shared_with(s, fin, s.O, c)
    member("%s(tensor::%s<%s> const&)" % (name, cls, el), copy, "another block")

    def assign(fin, sh):
        c = cur(fin)
        if c.single() and c.single()[0] == "heap":
            return fresh_block(s, fin, c, s.size(s.O)) or unchanged(s, fin, s.O) or released(s, fin, s.B, sh)
        return shared_with(s, fin, s.O, c) or released(s, fin, s.B, sh)

    def assign_same(fin, sh):
        c = cur(fin)
        if c.single() and c.single()[0] == "heap":
            return fresh_block(s, fin, c, s.size(s.B)) or released(s, fin, s.B, sh)
        if not fin.F.eq0(c - s.B):
            return "leaves the handle at %s" % show(c)
        return unchanged(s, fin, s.B)
    eq = "operator=(tensor::%s<%s> const&)" % (cls, el)
    member(eq, assign, "another block")
    member(eq, assign_same, "another handle on the same block")
    member(eq, assign_same, "itself")
    member("~%s()" % name, lambda fin, sh: released(s, fin, s.B, sh))

    def resize(fin, sh):
        c = cur(fin)
        return fresh_block(s, fin, c, fin_arg(fin, 1)) or released(s, fin, s.B, sh)
    member("resize(%s)" % idx, resize)
    member("reallocate(unsigned long)", resize)

    def mutable(fin, sh):
        c = cur(fin)
        if fin.F.eq0(c - s.B):
            return unchanged(s, fin, s.B)
        return fresh_block(s, fin, c, s.size(s.B)) or released(s, fin, s.B, sh)
    for m in ("begin()", "end()", "at(%s)" % idx):
        member(m, mutable)
    for m in ("begin() const", "begin_const() const", "end() const", "end_const() const", "size() const", "ref_count() const", "operator[](%s) const" % idx):
        member(m, lambda fin, sh: unchanged(s, fin, s.B) or (None if fin.F.eq0(cur(fin) - s.B) else "changes the handle"))
