"""Copy-on-write isolation: a write through one tensor is never visible through another."""
from storage import *
import C12


def run(ctx):
    ctx.rule("write access", "every member that hands out a pointer for writing first makes the object the only holder of its block, keeping length and elements, and the pointer points into that block at the requested element")
    ctx.rule("read access", "a member that hands out a pointer for reading changes nothing and points at the requested element of the current block")
    ctx.rule("copy", "a copy or an assignment leaves an object with the length and the elements of its source and the source untouched")
    ctx.rule("clients", "no function writes through an element pointer after the object it was taken from has been copied, or uses one after that object has been assigned, resized or destroyed; and none writes through a pointer obtained for reading")
    for cls in ("Vector", "RefPointer"):
        for el in ELS:
            one(ctx, cls, el)
    clients(ctx)


def clients(ctx):
    E = C12.load(ctx)
    acc = 0
    for n, (f, u, src) in sorted(E.fn.items()):
        F = Fn(src, u, f, "vec")
        o = E.org[n]
        k = len(o.accessors())
        if not k:
            continue
        acc += k
        ctx.functions.add(f["dem"])
        worst = None
        for a, ev, use, what, definite in E.stale(n):
            if worst is None or definite and worst[0] == UNK:
                worst = (REFUTED if definite else UNK, what, use.get("loc"))
        for i, a, d, why in E.const_writes(n):
            if worst is None or d and worst[0] == UNK:
                worst = (REFUTED if d else UNK, "the elements read through %s are %s" % (o.dem(a).replace("tensor::", ""), why), i.get("loc"))
        if worst is None:
            ctx.ok(F, "clients", "%d element pointers" % k)
        else:
            ctx.verdict(F, "clients", *worst)
    ctx.stats["element_pointers"] = acc


def one(ctx, cls, el):
    try:
        s = Storage(ctx, cls, el)
        find_owned(ctx, s)
    except Lost_ as e:
        ctx.add("%s<%s>" % (cls, el), "write access", UNK, str(e), None)
        return
    idx = "long" if cls == "Vector" else "unsigned long"

    def cur(fin):
        return fin.get(T0, s.B)

    def count(fin, blk):
        return fin.get(blk + s.orefs, s.refs(blk))

    def pos(fin, what):
        if what == "begin":
            return ZERO
        if what == "end":
            return s.size(s.B)
        a = fin.w.fn["args"][1]
        return P.a("arg", 1, a["ty"])

    def write(what):
        def body(fin, sh):
            F = fin.F
            c = cur(fin)
            if fin.nfree(c):
                return "the block handed out has been freed"
            if not F.eq0(count(fin, c) - 1):
                return "hands out a pointer for writing into a block with %s handles" % show(count(fin, c))
            d0, n0 = s.data(s.B), s.size(s.B)
            n = fin.get(c + s.osize, s.size(c))
            if not F.eq0(n - n0):
                return "the object's length becomes %s" % show(n)
            d = fin.get(c + s.odata, s.data(c))
            e = fin.writes_data(d0)
            if e is not None:
                return "the elements seen by other handles are written"
            if not F.eq0(c - s.B):
                r = same_elements(s, fin, d, d0, n0)
                if r is not None:
                    return r
            want = d + pos(fin, what) * s.es
            if not isinstance(fin.c.ret, P):
                raise Lost_("returned pointer")
            if not F.eq0(fin.c.ret - want):
                return "returns %s instead of %s" % (show(fin.c.ret), show(want))
        return body

    def read(what):
        def body(fin, sh):
            if fin.c.eff:
                return "a read access has side effects"
            want = s.data(s.B) + pos(fin, what) * s.es
            r = fin.c.ret
            if not isinstance(r, P):
                raise Lost_("returned pointer")
            if not fin.F.eq0(r - want):
                a = r.single()
                if a and a[0] in ("ld", "ldp") and fin.F.eq0(a[-1] - want):
                    return None
                return "returns %s instead of %s" % (show(r), show(want))
        return body
    for m in ("begin", "end"):
        check_member(ctx, s, m + "()", "write access", write(m), leak=False)
        for k in ("%s() const", "%s_const() const"):
            check_member(ctx, s, k % m, "read access", read(m), leak=False)
    check_member(ctx, s, "at(%s)" % idx, "write access", write("at"), leak=False)
    check_member(ctx, s, "operator[](%s)" % idx, "write access", write("at"), leak=False)
    if s.fn("operator[](%s) const" % idx) and el != "std::complex<double>":
        check_member(ctx, s, "operator[](%s) const" % idx, "read access", read("at"), leak=False)

    def copied(src):
        def body(fin, sh):
            F = fin.F
            c = cur(fin)
            d0, n0 = s.data(src), s.size(src)
            if not F.eq0(fin.get(c + s.osize, s.size(c)) - n0):
                return "the copy has %s elements" % show(fin.get(c + s.osize, s.size(c)))
            if fin.writes_data(d0) is not None:
                return "the elements of the source are written"
            d = fin.get(c + s.odata, s.data(c))
            if not F.eq0(d - d0):
                r = same_elements(s, fin, d, d0, n0)
                if r is not None:
                    return r
            elif not F.ge0(count(fin, c) - 2):
                return "two handles share a block that counts %s: writes through one are seen by the other" % show(count(fin, c))
            p = fin.get(T1, s.O)
            if not F.eq0(p - s.O):
                return "the source handle is changed"
        return body
    cst = "%s(tensor::%s<%s> const&)" % (cls, cls, el)
    eq = "operator=(tensor::%s<%s> const&)" % (cls, el)
    check_member(ctx, s, cst, "copy", copied(s.O), "another block", leak=False)
    check_member(ctx, s, eq, "copy", copied(s.O), "another block", leak=False)
