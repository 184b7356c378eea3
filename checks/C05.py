"""Shapes: constructors, extents queries, reshaping, change_dimension."""
from framework import *
from props import *
from walk import rangeprod
from checks.C03 import nonneg

CT = r"^tensor::Tensor<(double|std::complex<double>)>::"


def tel(fn):
    return "std::complex<double>" if "complex" in fn.dem.split(">::")[0] else "double"


def inttype(a):
    return a.ty in ("long", "int")


def run(ctx):
    ctx.rule("constructor", "a tensor created with given extents stores exactly these extents and holds their product of elements; one created from data holds that data")
    ctx.rule("copy", "copy construction and assignment give the extents and the elements of the source")
    ctx.rule("query", "dimension, rows, columns, rank, size, is_empty, dimensions and get_dimensions report the stored extents")
    ctx.rule("availability", "a valid query or shape is accepted")
    ctx.rule("bounds", "dimension(k) never answers for k outside [0, rank); get_dimensions only for the right rank")
    ctx.rule("reshape", "reshape keeps all elements in order, installs exactly the requested extents, and is accepted exactly when the number of elements agrees")
    ctx.rule("change_dimension", "change_dimension keeps the common part of the elements, fills new elements with zero and changes only that extent")
    ctx.rule("helper", "total size of a list of extents, products of surrounding extents, and equality of lists of extents")
    constructors(ctx)
    queries(ctx)
    reshapes(ctx)
    change(ctx)
    helpers(ctx)


def constructors(ctx):
    n = 0
    for fn in ctx.get(CT + r"Tensor\("):
        elty = tel(fn)
        me = Ten(fn.sig.this, elty)
        args = fn.sig.args
        n += 1
        tys = [a.ty for a in args]
        if not args:
            def specf(c, F):
                return dict(dims=[], size=ZERO, pieces=[])
            check_tensor_result(ctx, fn, "constructor", specf, elty, obj=me.addr, tens=[])
        elif all(t == "long" for t in tys):
            dims = [a.v for a in args]
            size = ONE
            for d in dims:
                size = size * d

            def specf(c, F, dims=dims, size=size):
                F = nonneg(F, dims)
                return None if F is None else dict(dims=dims, size=size, pieces=[], facts=F.add(cge(size)))
            check_tensor_result(ctx, fn, "constructor", specf, elty, obj=me.addr, tens=[])
            rejects_only(ctx, fn, "availability", [cge(d) for d in dims])
        elif tys == ["tensor::Indices const&"]:
            sq = Ten(args[0].v - 8, "double")
            tot = P.a("total", ("vec", P.a("buf", args[0].v)))
            check_tensor_result(ctx, fn, "constructor", lambda c, F: dict(dims=sq, size=tot, pieces=[]), elty, obj=me.addr, tens=[])
            rejects_only(ctx, fn, "availability", [])
        elif len(args) == 2 and tys[0] == "tensor::Indices const&":
            sq = Ten(args[0].v - 8, "double")
            o = tensor_arg(args[1])
            tot = P.a("total", ("vec", P.a("buf", args[0].v)))
            if o is None:
                continue

            def specf(c, F, o=o, sq=sq, tot=tot):
                if not F.eq0(tot - o.size):
                    return ("acceptance", REFUTED if counterexample(list(F.conds) + [cne(tot - o.size)], [sq, o]) else UNK,
                            "returns although the number of elements %s and the product of the extents %s may differ" % (show(o.size), show(tot)), c.loc)
                return dict(dims=sq, size=tot, pieces=[SPiece([o.size], o.val)])
            check_tensor_result(ctx, fn, "reshape", specf, elty, obj=me.addr, tens=[sq, o])
            rejects_only(ctx, fn, "availability", [ceq(tot - o.size)], [sq, o])
        elif len(args) == 1 and tensor_arg(args[0]):
            o = tensor_arg(args[0])
            if "Vector<" in tys[0]:
                check_tensor_result(ctx, fn, "constructor", lambda c, F: dict(dims=[o.size], size=o.size, pieces=[SPiece([o.size], o.val)]), elty, obj=me.addr, tens=[plain(o)])
            else:
                check_tensor_result(ctx, fn, "copy", lambda c, F: dict(dims=o, size=o.size, pieces=[SPiece([o.size], o.val)]), elty, obj=me.addr, tens=[o])
        elif tys[0].startswith("std::vector<") and len(args) == 1:
            p = args[0].v
            sz, b = P.a("svsize", p), P.a("svbuf", p)
            es = 16 if "complex" in elty else 8

            def val(i, b=b, es=es):
                return (ld(b + i.scale(es)), ld(b + i.scale(es) + 8) if es == 16 else ZERO)
            check_tensor_result(ctx, fn, "constructor", lambda c, F: dict(dims=[sz], size=sz, pieces=[SPiece([sz], val)], facts=F.add(cge(sz))), elty, obj=me.addr, tens=[],
                                models=svalias, key="sv")
        else:
            n -= 1
    for fn in ctx.get(CT + r"operator=\(tensor::Tensor<"):
        elty = tel(fn)
        o = tensor_arg(fn.sig.args[0])
        if o is None:
            continue
        n += 1
        check_tensor_result(ctx, fn, "copy", lambda c, F: dict(dims=o, size=o.size, pieces=[SPiece([o.size], o.val)]), elty, obj=fn.sig.this, tens=[o])
        each_return(ctx, fn, "copy", lambda c, w: scalar_eq(c, c.ret, fn.sig.this, [o]))
    if n < 24:
        raise AnalysisError("only %d constructors found" % n)


svalias = None


def plain(t):
    t.plain = True
    return t


def queries(ctx):
    n = 0
    for fn in ctx.get(CT + r"(dimension|rows|columns|rank|size|is_empty|dimensions|get_dimensions)\("):
        name = re.search(r">::(\w+)\(", fn.dem).group(1)
        t = Ten(fn.sig.this, tel(fn))
        n += 1
        if name == "get_dimensions":
            outs = [a.v for a in fn.sig.args]

            def judge(c, w, t=t, outs=outs):
                r = implied(c.facts, ceq(t.rank - len(outs)), [t])
                if r[0] != PROVED:
                    return r
                cs = CState(w, c)
                for k, p in enumerate(outs):
                    got = w.lookup(cs, p, 8, "i64", len(cs.eff))
                    r = scalar_eq(c, got, t.dim(k), [t])
                    if r[0] != PROVED:
                        return r[0], "extent %d: %s" % (k, r[1])
                return PROVED, ""
            each_return(ctx, fn, "query", judge)
            rejects_only(ctx, fn, "availability", [ceq(t.rank - len(outs))], [t])
            continue
        if name in ("rank", "size", "dimensions", "is_empty"):
            want = {"rank": t.rank, "size": t.size, "dimensions": t.addr + 8}.get(name)

            def judge(c, w, want=want, t=t, name=name):
                if name == "is_empty":
                    return bool_eq(c, c.ret, ceq(t.size), [t])
                return scalar_eq(c, c.ret, want, [t])
            each_return(ctx, fn, "query", judge)
            rejects_only(ctx, fn, "availability", [], [t])
            continue
        k = {"rows": ZERO, "columns": ONE}.get(name)
        if k is None:
            k = fn.sig.args[0].v

        def judge(c, w, t=t, k=k):
            for g in (cge(k), cge(t.rank - 1 - k)):
                r = implied(c.facts, g, [t])
                if r[0] != PROVED:
                    return r
            return scalar_eq(c, c.ret, t.dim(k), [t])
        each_return(ctx, fn, "query", judge)
        rejects_only(ctx, fn, "availability", [cge(k), cge(t.rank - 1 - k)], [t])
    if n < 26:
        raise AnalysisError("only %d queries found" % n)


def bool_eq(c, impl, cond, tens):
    """returned truth value against the condition it should express"""
    F = c.facts
    if isinstance(impl, P):
        k = impl.const()
        impl = TRUE if k == 1 else FALSE if k == 0 else ("bool", impl)
    if impl == cond:
        return PROVED, ""
    a, b = F.decide(impl), F.decide(cond)
    if impl in (TRUE, FALSE):
        a = impl == TRUE
    if a is not None and a == b:
        return PROVED, ""
    for x, y in ((impl, cnot(cond)), (cnot(impl), cond)):
        d = counterexample(list(F.conds) + [x, y], tens)
        if d:
            return REFUTED, "answers %s for %s" % ("true" if x is impl else "false", d)
    return UNK, "truth value %s" % show(impl)[:120]


def reshapes(ctx):
    n = 0
    for fn in ctx.get(CT + r"reshape\(tensor::Indices const&\)"):
        n += 1
        t = Ten(fn.sig.this, tel(fn))
        sq = Ten(fn.sig.args[0].v - 8, "double")
        reshape_obl(ctx, fn, t, sq, P.a("total", ("vec", P.a("buf", fn.sig.args[0].v))), fn.sig.this, [sq, t])
    for fn in ctx.get(r"^tensor::reshape\(tensor::Tensor<"):
        n += 1
        t = tensor_arg(fn.sig.args[0])
        rest = fn.sig.args[1:]
        if len(rest) == 1 and rest[0].ty == "tensor::Indices const&":
            sq = Ten(rest[0].v - 8, "double")
            reshape_obl(ctx, fn, t, sq, P.a("total", ("vec", P.a("buf", rest[0].v))), fn.sig.sret, [sq, t])
        else:
            dims = [a.v for a in rest]
            tot = ONE
            for d in dims:
                tot = tot * d
            reshape_obl(ctx, fn, t, dims, tot, fn.sig.sret, [t])
    for fn in ctx.get(r"^tensor::flatten\(tensor::Tensor<"):
        n += 1
        t = tensor_arg(fn.sig.args[0])
        reshape_obl(ctx, fn, t, [t.size], t.size, fn.sig.sret, [t])
    for fn in ctx.get(r"^tensor::squeeze\(tensor::Tensor<"):
        n += 1
        t = tensor_arg(fn.sig.args[0])
        check_tensor_result(ctx, fn, "reshape", lambda c, F: dict(dims=None, size=t.size, pieces=[SPiece([t.size], t.val)]), t.elty, tens=[t])
    if n < 20:
        raise AnalysisError("only %d reshaping functions found" % n)


def reshape_obl(ctx, fn, t, dims, tot, obj, tens):
    def specf(c, F):
        if isinstance(dims, list):
            F = nonneg(F, dims)
            if F is None:
                return None
        if not F.eq0(tot - t.size):
            d = counterexample(list(F.conds) + [cne(tot - t.size)], tens)
            return ("acceptance", REFUTED if d else UNK, "returns although the product of the extents may differ from the number of elements%s" % (" (%s)" % d if d else ""), c.loc)
        return dict(dims=dims, size=t.size, pieces=[SPiece([t.size], t.val)], facts=F)
    check_tensor_result(ctx, fn, "reshape", specf, t.elty, obj=obj, tens=tens)
    valid = [ceq(tot - t.size)]
    if isinstance(dims, list):
        valid += [cge(d) for d in dims]
    rejects_only(ctx, fn, "availability", valid, tens)


def change(ctx):
    for fn in ctx.get(r"^tensor::change_dimension\(tensor::Tensor<"):
        t = tensor_arg(fn.sig.args[0])
        dim, new = fn.sig.args[1].v, fn.sig.args[2].v
        db = P.a("buf", t.addr + 8)

        def specf(c, F):
            F = nonneg(F, [new])
            if F is None:
                return None
            if F.ge0(dim):
                k = dim
            elif F.ge0(-dim - 1):
                k = dim + t.rank
            else:
                return ("index", UNK, "sign of the index", c.loc)
            I, old, K = rangeprod(db, 0, k), t.dim(k), rangeprod(db, k + 1, t.rank)
            for g in (cge(k), cge(t.rank - 1 - k)):
                if F.decide(g) is not True:
                    d = counterexample(list(F.conds) + [cnot(g)], [t])
                    return ("bounds", REFUTED if d else UNK, "accepts an index outside the rank: %s" % d, c.loc)
            F = F.add(ceq(t.size - I * old * K)).add(cge(I)).add(cge(K)).add(cge(old))
            dims = Dims(t.rank, [SPiece([t.rank], lambda i: (t.dim(i), ZERO)), SPiece([ONE], lambda i: (new, ZERO), start=k)])
            v = lambda i, j, m: t.val(i + I * j + I * old * m)
            out = []
            for G in ([F.add(cge(old - new)), F.add(cge(new - old - 1))] if F.decide(cge(old - new)) is None else [F]):
                if G.eq0(new - old):
                    out.append(dict(dims=t, size=t.size, pieces=[SPiece([t.size], t.val)], facts=G))
                elif G.ge0(old - new):
                    out.append(dict(dims=dims, size=I * new * K, pieces=[SPiece([I, new, K], v)], facts=G))
                else:
                    if G.ge0(old * I - new * I) and G.ge0(new - old - 1):
                        G = G.add(ceq(I))           # (new-old)*I <= 0
                    out.append(dict(dims=dims, size=I * new * K, facts=G,
                                    pieces=[SPiece([I * new * K], lambda i: (ZERO, ZERO)), SPiece([I, old, K], v, strides=[ONE, I, I * new])]))
            return out
        check_tensor_result(ctx, fn, "change_dimension", specf, t.elty, tens=[t])
        valid = [cge(new), cge(dim + t.rank), cge(t.rank - 1 - dim)]
        rejects_only(ctx, fn, "availability", valid, [t])


def helpers(ctx):
    fn = ctx.get(r"^tensor::Indices::total_size\(\)", "core")[0]
    t = Ten(fn.sig.this, "long")

    def judge(c, w):
        F = c.facts
        for x in F.conds:       # paths of a negative extent are outside the specification
            if x[0] == "ge" and negext(x[1], t):
                return None
        if F.eq0(t.size):
            return scalar_eq(c, c.ret, ZERO, [])
        return scalar_eq(c, c.ret, rangeprod(t.buf, 0, t.size), [], F=F)
    each_return(ctx, fn, "helper", judge)
    fn = ctx.get(r"^tensor::surrounding_dimensions\(tensor::Indices const&, long, long\*, long\*, long\*\)")[0]
    t = Ten(fn.sig.args[0].v, "long")
    n = fn.sig.args[1].v
    outs = [a.v for a in fn.sig.args[2:]]

    def judge(c, w):
        F = c.facts
        if F.decide(cge(n)) is False or F.decide(cge(t.size - 1 - n)) is False:
            return None
        F = F.add(cge(n)).add(cge(t.size - 1 - n))
        cs = CState(w, c)
        for p, want in zip(outs, (rangeprod(t.buf, 0, n), ld(t.buf + n.scale(8), "i64"), rangeprod(t.buf, n + 1, t.size))):
            r = scalar_eq(c, w.lookup(cs, p, 8, "i64", len(cs.eff)), want, [], F=F)
            if r[0] != PROVED:
                return r
        return PROVED, ""
    each_return(ctx, fn, "helper", judge)
    for fn in ctx.get(r"^tensor::verify_tensor_dimensions_match\("):
        x, y = [P.a("buf", a.v) for a in fn.sig.args]
        a, b = sorted((("vec", x), ("vec", y)), key=repr)
        n1, n2 = [P.a("vsize", z.v) for z in fn.sig.args]

        def judge(c, w):
            F = c.facts
            eq = ("bool", P.a("dimseq", a, b))
            r = c.ret
            if isinstance(r, P):
                r = TRUE if r.const() == 1 else FALSE if r.const() == 0 else ("bool", r)
            if F.decide(ceq(n1 - n2)) is False or cnot(eq) in F.conds:
                return (PROVED, "") if r == FALSE else ((REFUTED if r == TRUE else UNK), "different extents are reported as equal")
            if eq in F.conds:
                return (PROVED, "") if r == TRUE else ((REFUTED if r == FALSE else UNK), "equal extents are reported as different")
            if r == eq or r == cand([ceq(n1 - n2), eq]):
                return PROVED, ""
            if r == TRUE and not lost(tuple(F.conds)):
                return REFUTED, "reports equality without comparing the extents: %s" % show(list(F.conds))[:100]
            return UNK, "answer %s" % show(r)[:100]
        each_return(ctx, fn, "helper", judge)


def negext(p, t):
    """-1 - extent >= 0 ?"""
    q = -p - 1
    a = q.single()
    return bool(a) and a[0] == "ld" and a[1] == "i64" and list(t.buf.atoms())[0] in a[2].atoms()
