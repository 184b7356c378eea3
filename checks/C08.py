"""Reductions, norms, extrema and sorting."""
from framework import *
from props import *
from walk import mksum, bind
import itertools


def summ(n, f):
    k = fresh("iv", "q")
    return mksum(f(k), list(k.atoms())[0], n)


def extreme(kind, init, n, f):
    k = fresh("iv", "q")
    b, lv = bind(f(k), list(k.atoms())[0])
    return P.a("red", kind, init, n, b, lv)


def mag(v, cplx):
    return P.a("fn", "cabs", v[0], v[1]) if cplx else P.a("fn", "fabs", v[0])


def cret(c):
    """lanes of a returned scalar"""
    r = c.ret
    if isinstance(r, tuple) and r and r[0] == "agg":
        return list(r[1:])
    return [r]


def lanes_eq(c, want, tens):
    got = cret(c)
    if len(got) != len(want):
        return UNK, "return value not resolved"
    w = (PROVED, "")
    for k, (g, x) in enumerate(zip(got, want)):
        r = scalar_eq(c, g, x, tens)
        if r[0] == REFUTED:
            return r
        if r[0] == UNK:
            w = r
    return w


def run(ctx):
    ctx.rule("value", "the returned number is the stated reduction of all elements")
    ctx.rule("availability", "every non-empty (matching) argument is accepted")
    ctx.rule("size mismatch", "scprod of operands with different numbers of elements does not return")
    ctx.rule("partial mean", "mean(t, k) divides the sums along dimension k by its extent and drops that dimension")
    ctx.rule("comparator", "the order used for sorting is strict and compares the elements the two positions name")
    ctx.rule("sort", "sort returns a reordering of a copy of the whole list by < or >, sort_indices a reordering of 0..n-1 by the elements they name")
    n = 0
    for fn in ctx.get(r"^tensor::(sum|mean|norm0|norm2|scprod|max|min|matrix_norminf)\((tensor::Tensor<[^()]*)\)"):
        n += 1
        name = re.match(r"tensor::(\w+)\(", fn.dem).group(1)
        ts = [tensor_arg(a) for a in fn.sig.args]
        if len(ts) == 2 and ts[1] is None:
            partial(ctx, fn, ts[0])
            continue
        a = ts[0]
        el = a.val
        if name == "sum":
            lanes = lambda: [summ(a.size, lambda k, j=j: el(k)[j]) for j in range(2 if a.cplx else 1)]
        elif name == "mean":
            lanes = lambda: [summ(a.size, lambda k, j=j: el(k)[j]) * inv(a.size) for j in range(2 if a.cplx else 1)]
        elif name == "norm0":
            lanes = lambda: [extreme("max", ZERO, a.size, lambda k: mag(el(k), a.cplx))]
        elif name == "norm2":
            lanes = lambda: [P.a("fn", "sqrt", summ(a.size, lambda k: el(k)[0] * el(k)[0] + el(k)[1] * el(k)[1]))]
        elif name == "scprod":
            b = ts[1]
            each_return(ctx, fn, "size mismatch", lambda c, w: implied(c.facts, ceq(a.size - b.size), ts))
            p = lambda k: cmul(a.val(k), cconj(b.val(k)))
            lanes = lambda: [summ(a.size, lambda k, j=j: p(k)[j]) for j in range(2 if a.cplx else 1)]
        elif name in ("max", "min"):
            lanes = lambda: [extreme(name, el(ZERO)[0], a.size - 1, lambda k: el(k + 1)[0])]
        else:
            r, q = a.dim(0), a.dim(1)
            lanes = lambda: [extreme("max", ZERO, r, lambda i: summ(q, lambda j: mag(el(i + r * j), a.cplx)))]
        valid = {"max": [cge(a.size - 1)], "min": [cge(a.size - 1)], "mean": [cge(a.size - 1)]}.get(name, [])
        if name == "scprod":
            valid = [ceq(ts[0].size - ts[1].size)]
        if name == "matrix_norminf":
            valid = [ceq(a.rank - 2), cge(a.dim(0)), cge(a.dim(1))]
        each_return(ctx, fn, "value", lambda c, w: lanes_eq(c, lanes(), ts))
        rejects_only(ctx, fn, "availability", valid, ts)
    if n < 16:
        raise AnalysisError("only %d reductions found" % n)
    sorting(ctx)


def partial(ctx, fn, t):
    jobs = []
    for rank in range(1, 7 if ctx.tier == "thorough" else 5):
        for ndx in range(-rank, rank):
            jobs.append(lambda rank=rank, ndx=ndx: partial1(ctx, fn, t, rank, ndx))
    ctx.par(jobs)


def partial1(ctx, fn, t, rank, ndx):
    part = ranked({0: rank}, {1: ndx})
    k = ndx % rank
    dims = [t.dim(j) for j in range(rank)]
    L, R = ONE, ONE
    for j in range(k):
        L = L * dims[j]
    for j in range(k + 1, rank):
        R = R * dims[j]
    d = dims[k]
    out = dims[:k] + dims[k + 1:]

    def value(l, r):
        return tuple(summ(d, lambda j: t.el(l + L * (j + d * r), lane)) * inv(d) for lane in range(2 if t.cplx else 1))

    def specf(c, F):
        F = facts_with_dims(F, [t])
        return dict(dims=out or [ONE], size=L * R, pieces=[SPiece([L, R], value)], facts=F, ints=None)
    tag = " [rank %d, dimension %d]" % (rank, ndx)
    check_tensor_result(ctx, fn, "partial mean" + tag, specf, t.elty, tens=[t], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x - 1) for x in dims], [t], part=part)
    within_rank(ctx, fn, "extents" + tag, [t], [rank], part)


def sorting(ctx):
    n = 0
    comps = {}
    for fn in ctx.get(r"^tensor::Compare(Inv)?<(double|long)>::operator\(\)", required=False):
        o = fn.dem.startswith("tensor::CompareInv")
        ty = re.search(r"<(\w+)>", fn.dem).group(1)
        p = P.a("ldp", "ptr", fn.sig.this)
        x, y = [ld(p + a.v.scale(8), "double" if ty == "double" else "i64") for a in fn.sig.args]
        want = cf("olt", y, x) if o and ty == "double" else cf("olt", x, y) if ty == "double" else cge(x - y - 1) if o else cge(y - x - 1)

        def judge(c, w, want=want):
            got = c.ret
            if isinstance(got, P):
                a = got.single()
                if a and a[0] == "b2i":
                    got = a[1]
            if isinstance(got, tuple) and got and isinstance(got[0], str) and got == want:
                return PROVED, ""
            if isinstance(got, tuple) and not lost(got):
                return REFUTED, "orders by %s instead of %s" % (show(got), show(want))
            return UNK, "comparison " + show(c.ret)[:120]
        each_return(ctx, fn, "comparator", judge)
        comps[fn.dem.split("::operator")[0]] = o
    for fn in ctx.get(r"^tensor::(sort|sort_indices)\((tensor::Tensor<double>|tensor::Indices) const&, bool\)"):
        n += 1
        idx = "Indices const&" in fn.sig.args[0].ty
        byidx = "sort_indices" in fn.dem
        if idx:
            a = Ten(fn.sig.args[0].v, "long")
        else:
            a = tensor_arg(fn.sig.args[0])
        rev = fn.sig.args[1].v
        each_return(ctx, fn, "sort", lambda c, w: sort1(c, w, fn, a, rev, idx, byidx, comps))
        rejects_only(ctx, fn, "availability", [], [a])
    if n < 4:
        raise AnalysisError("only %d sorting functions found" % n)


def sort1(c, w, fn, a, rev, idx, byidx, comps):
    F = c.facts
    obj = fn.sig.sret
    want_rev = F.decide(rev)
    pos = [n for n, e in enumerate(c.eff) if e[0] == "call" and "std::sort<" in e[1] or e[0] == "call" and "std::stable_sort<" in e[1]]
    cs = CState(w, c)
    vec = w.vec(cs, obj, 8)
    if not pos:
        if F.eq0(a.size) and F.eq0(vec.size):
            return PROVED, ""
        if lost(vec.size):
            return UNK, "no sorting step"
        r = implied(F, ceq(vec.size - a.size), [a])
        if r[0] == REFUTED:
            return REFUTED, "returns %s positions instead of %s: %s" % (show(vec.size), show(a.size), r[1])
        d = counterexample(list(F.conds) + [cge(a.size - 2)], [a])
        return (REFUTED, "returns without sorting for %s" % d) if d and all(e[0] in ("vnew", "vcopy", "st", "alloc", "free") for e in c.eff) else (UNK, "no sorting step")
    if len(pos) != 1:
        return UNK, "more than one sorting step"
    e = c.eff[pos[0]]
    loc = e[3]
    # 1. what is sorted
    before = [x for x in c.eff[:pos[0]]]
    after = [x for x in c.eff[pos[0] + 1:] if x[0] not in ("havoc",)]
    if any(x[0] in ("st", "for", "call", "vcopy", "copy") for x in after):
        return UNK, "steps after sorting"
    cs.eff = before
    es = 8
    first, last = e[2][0], e[2][1]
    elty = "long" if idx or byidx else "double"
    if not F.eq0(last - first - a.size.scale(8)) or not F.eq0(first - vec.buf):
        d = red(F, last - first - a.size.scale(8))
        if not lost(first) and not lost(last) and F.eq0(first - vec.buf) and d.const() not in (None, 0):
            return REFUTED, "sorts %s bytes from the start of the list instead of all %s" % (show(last - first), show(a.size.scale(8))), loc
        return UNK, "range %s..%s" % (show(first)[:60], show(last)[:60])
    val = (lambda k: (k, ZERO)) if byidx else (lambda k: (ld(a.buf + k.scale(8), "i64" if idx else "double"), ZERO))
    s = same(vec.size, a.size, F)
    if s is False:
        return REFUTED, "result holds %s elements instead of %s" % (show(vec.size), show(a.size)), loc
    if s is None:
        return UNK, "size"
    ps = contents(cs, vec.buf, vec.size, 8, elty)
    v, d, l = compare_contents(ps, [SPiece([a.size], val)], a.size, 8, F)
    if v != PROVED:
        return v, "list to be sorted: " + d, l
    if not byidx and not idx:
        v, d = dims_verdict(cs, obj, a, F)
        if v != PROVED:
            return v, d, loc
    # 2. the order
    m = re.search(r"\(([^()]*)\)$", e[1])
    cmpname = m.group(1).split(", ", 2)[2] if m and m.group(1).count(", ") >= 2 else "std::less<>"
    if re.search(r"std::(greater|less)<", cmpname):
        got = "greater" in cmpname
        if byidx:
            return REFUTED, "orders positions by themselves", loc
    elif cmpname in comps:
        got = comps[cmpname]
        if not byidx:
            return UNK, "comparator"
        if len(e[2]) < 3 or same(e[2][2], a.buf, F) is not True:
            return UNK, "data compared: %s" % (show(e[2][2])[:60] if len(e[2]) > 2 else "?")
    else:
        return UNK, "comparator " + cmpname
    if want_rev is None:
        d = counterexample(list(F.conds) + [cge(a.size - 2), rev if got is False else cnot(rev)], [a])
        return (REFUTED, "sorts %s whatever the reverse flag" % ("descending" if got else "ascending"), loc)
    if got != want_rev:
        return REFUTED, "sorts %s when reverse is %s" % ("descending" if got else "ascending", str(want_rev).lower()), loc
    return PROVED, ""
