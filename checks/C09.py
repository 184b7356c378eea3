"""Transposition, permutation of dimensions, diagonals and traces."""
from framework import *
from props import *
from checks.C08 import summ, lanes_eq
import itertools


def run(ctx):
    ctx.rule("transpose", "transpose and adjoint exchange rows and columns, element (j,i) being (the conjugate of) a(i,j)")
    ctx.rule("permute", "permute(t, i, j) exchanges the two dimensions and keeps every element with its indices exchanged")
    ctx.rule("diag", "diag(v, k, rows, cols) is zero but for v on the k-th diagonal; take_diag extracts exactly that diagonal of the two named dimensions")
    ctx.rule("trace", "trace sums the elements with equal indices in the two dimensions, which disappear from the result")
    ctx.rule("availability", "every valid call is accepted")
    n = 0
    jobs = []
    for fn in ctx.get(r"^tensor::(transpose|adjoint)\(tensor::Tensor<"):
        n += 1
        simple(ctx, fn)
    for fn in ctx.get(r"^tensor::trace\(tensor::Tensor<.*> const&\)$"):
        n += 1
        t = tensor_arg(fn.sig.args[0])
        r, c_ = t.dim(0), t.dim(1)

        def judge(c, w, t=t, r=r, c_=c_):
            F = c.facts
            m = r if F.ge0(c_ - r) else c_ if F.ge0(r - c_) else None
            if m is None:
                return UNK, "order of the extents not decided"
            return lanes_eq(c, [summ(m, lambda k, j=j: t.el(k + r * k, j)) for j in range(2 if t.cplx else 1)], [t])
        each_return(ctx, fn, "trace", judge)
        rejects_only(ctx, fn, "availability", [ceq(t.rank - 2), cge(r), cge(c_)], [t])
    for fn in ctx.get(r"^tensor::diag\(tensor::Tensor<"):
        n += 1
        diag(ctx, fn)
    top = 5 if ctx.tier == "thorough" else 4
    for fn in ctx.get(r"^tensor::permute\(tensor::Tensor<"):
        n += 1
        for rank in range(1, top + 1):
            rng = list(range(-rank, rank)) if rank <= 3 else list(range(rank))
            for i, j in itertools.product(rng, rng):
                if rank == 4 and i > j and ctx.tier != "thorough":
                    continue
                jobs.append((rank, lambda fn=fn, rank=rank, i=i, j=j: permute(ctx, fn, rank, i, j)))
    for fn in ctx.get(r"^tensor::trace\(tensor::Tensor<.*> const&, long, long\)$"):
        n += 1
        for rank in range(2, top + 1):
            rng = list(range(-rank, rank)) if rank <= 3 else list(range(rank))
            for i, j in itertools.product(rng, rng):
                if i % rank != j % rank:
                    jobs.append((rank, lambda fn=fn, rank=rank, i=i, j=j: trace(ctx, fn, rank, i, j)))
    for fn in ctx.get(r"^tensor::take_diag\(tensor::Tensor<"):
        n += 1
        for rank in range(2, top + 1):
            rng = list(range(-rank, rank)) if rank <= 3 else list(range(rank))
            for i, j in itertools.product(rng, rng):
                if i % rank != j % rank:
                    jobs.append((rank, lambda fn=fn, rank=rank, i=i, j=j: take_diag(ctx, fn, rank, i, j)))
    jobs.sort(key=lambda x: -x[0])
    ctx.par([j for _, j in jobs])
    if n < 15:
        raise AnalysisError("only %d functions found" % n)


def simple(ctx, fn):
    t = tensor_arg(fn.sig.args[0])
    conj = "adjoint" in fn.dem

    def specf(c, F):
        r = implied(F, ceq(t.rank - 2), [t])
        if r[0] != PROVED:
            return ("rank", r[0], r[1], c.loc)
        r, q = t.dim(0), t.dim(1)
        F = facts_with_dims(F, [t]).add(cge(r)).add(cge(q))
        return dict(dims=[q, r], size=r * q, facts=F,
                    pieces=[SPiece([r, q], lambda i, j: cconj(t.val(i + r * j)) if conj else t.val(i + r * j), strides=[q, ONE])])
    check_tensor_result(ctx, fn, "transpose", specf, t.elty, tens=[t])
    rejects_only(ctx, fn, "availability", [ceq(t.rank - 2), cge(t.dim(0)), cge(t.dim(1))], [t])


def diag(ctx, fn):
    t = tensor_arg(fn.sig.args[0])
    w_ = fn.sig.args[1].v
    if len(fn.sig.args) == 4:
        rows, cols = fn.sig.args[2].v, fn.sig.args[3].v
    else:
        rows = None

    def specf(c, F):
        out = []
        for neg in (False, True):
            G = F.add(cge(-w_ - 1) if neg else cge(w_))
            if infeasible(G) or F.decide(cge(w_)) is neg:
                continue
            aw = -w_ if neg else w_
            R, C = (rows, cols) if rows is not None else (t.size + aw, t.size + aw)
            G = G.add(cge(R)).add(cge(C)).add(cge(t.size))
            r0, c0 = (aw, ZERO) if neg else (ZERO, aw)
            # the k-th diagonal has min(R-r0, C-c0) elements
            if rows is not None:
                for H, l in ((G.add(cge(C - c0 - R + r0)), R - r0), (G.add(cge(R - r0 - C + c0 - 1)), C - c0)):
                    if infeasible(H):
                        continue
                    r = implied(H, ceq(l - t.size), [t])
                    if r[0] != PROVED:
                        return ("acceptance", r[0], "number of elements: " + r[1], c.loc)
                    out.append(dict(dims=[R, C], size=R * C, facts=H.add(ceq(l - t.size)), pieces=[SPiece([R * C], lambda k: (ZERO, ZERO)),
                                    SPiece([t.size], t.val, strides=[R + 1], start=r0 + R * c0)]))
            else:
                out.append(dict(dims=[R, C], size=R * C, facts=G, pieces=[SPiece([R * C], lambda k: (ZERO, ZERO)), SPiece([t.size], t.val, strides=[R + 1], start=r0 + R * c0)]))
        return out
    check_tensor_result(ctx, fn, "diag", specf, t.elty, tens=[plain(t)])
    if rows is None:
        rejects_only(ctx, fn, "availability", [cge(t.size)], [t])
        return
    for neg in (False, True):
        aw = -w_ if neg else w_
        r0, c0 = (aw, ZERO) if neg else (ZERO, aw)
        for first in (True, False):
            d = C = None
            l, m = (rows - r0, cols - c0) if first else (cols - c0, rows - r0)
            rejects_only(ctx, fn, "availability [%s, %s]" % ("below" if neg else "above", "rows" if first else "columns"),
                         [cge(aw - (1 if neg else 0)), cge(m - l), ceq(l - t.size), cge(t.size), cge(rows), cge(cols)], [t])


def plain(t):
    t.plain = True
    return t


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def strides_of(dims):
    out, acc = [], ONE
    for d in dims:
        out.append(acc)
        acc = acc * d
    return out


def permute(ctx, fn, rank, i, j):
    t = tensor_arg(fn.sig.args[0])
    part = ranked({0: rank}, {1: i, 2: j})
    n1, n2 = i % rank, j % rank
    dims = [t.dim(k) for k in range(rank)]
    out = list(dims)
    out[n1], out[n2] = dims[n2], dims[n1]
    so = strides_of(out)
    st = list(so)
    st[n1], st[n2] = so[n2], so[n1]         # stride, in the result, of each coordinate of the argument

    def specf(c, F):
        F = facts_with_dims(F, [t])
        return dict(dims=out, size=prod(dims), facts=F, pieces=[SPiece(dims, lambda *ks: t.val(sum((k * s for k, s in zip(ks, strides_of(dims))), ZERO)), strides=st)])
    tag = " [rank %d, dimensions %d,%d]" % (rank, i, j)
    check_tensor_result(ctx, fn, "permute" + tag, specf, t.elty, tens=[t], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x) for x in dims], [t], part=part)
    within_rank(ctx, fn, "extents" + tag, [t], [rank], part)


def trace(ctx, fn, rank, i, j):
    t = tensor_arg(fn.sig.args[0])
    part = ranked({0: rank}, {1: i, 2: j})
    n1, n2 = sorted((i % rank, j % rank))
    dims = [t.dim(k) for k in range(rank)]
    sd = strides_of(dims)
    keep = [k for k in range(rank) if k not in (n1, n2)]
    outd = [dims[k] for k in keep] or [ONE]

    def specf(c, F):
        F = facts_with_dims(F, [t])
        res = []
        for G, m in ((F.add(cge(dims[n2] - dims[n1])), dims[n1]), (F.add(cge(dims[n1] - dims[n2] - 1)), dims[n2])):
            if infeasible(G) or (m is dims[n1] and F.decide(cge(dims[n2] - dims[n1])) is False) or (m is dims[n2] and F.decide(cge(dims[n2] - dims[n1])) is True):
                continue

            def value(*ks, m=m):
                base = sum((k * sd[q] for k, q in zip(ks, keep)), ZERO)
                return tuple(summ(m, lambda l: t.el(base + l * (sd[n1] + sd[n2]), lane)) for lane in range(2 if t.cplx else 1))
            res.append(dict(dims=outd, size=prod(outd), facts=G, pieces=[SPiece([dims[k] for k in keep], value)]))
        return res
    tag = " [rank %d, dimensions %d,%d]" % (rank, i, j)
    check_tensor_result(ctx, fn, "trace" + tag, specf, t.elty, tens=[t], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x) for x in dims], [t], part=part)
    within_rank(ctx, fn, "extents" + tag, [t], [rank], part)


def take_diag(ctx, fn, rank, i, j):
    t = tensor_arg(fn.sig.args[0])
    part = ranked({0: rank}, {2: i, 3: j})
    w_ = fn.sig.args[1].v
    n1, n2 = i % rank, j % rank
    dims = [t.dim(k) for k in range(rank)]
    sd = strides_of(dims)
    A, B = dims[n1], dims[n2]
    lo, hi = min(n1, n2), max(n1, n2)

    def specf(c, F):
        F = facts_with_dims(F, [t])
        res = []
        for g in (cge(w_ + A - 1), cge(B - 1 - w_)):
            r = implied(F, g, [t])
            if r[0] != PROVED:
                return ("acceptance", r[0], "diagonal outside the matrix: " + r[1], c.loc)
        F = F.add(cge(w_ + A - 1)).add(cge(B - 1 - w_))
        if F.eq0(A - 1) and F.eq0(B - 1):
            F = F.add(ceq(w_))
        for neg in (False, True):
            if F.decide(cge(w_)) is neg:
                continue
            G = F.add(cge(-w_ - 1) if neg else cge(w_))
            r0, c0 = (-w_, ZERO) if neg else (ZERO, w_)
            for H, l in ((G.add(cge(B - c0 - A + r0)), A - r0), (G.add(cge(A - r0 - B + c0 - 1)), B - c0)):
                if infeasible(H) or contradicts(H, []):
                    continue
                H = H.add(cge(l - 1))
                outd = list(dims)
                outd[lo] = l
                del outd[hi]
                ext = [l if k == lo else dims[k] for k in range(rank) if k != hi]
                keep = [k for k in range(rank) if k != hi]

                def value(*ks, r0=r0, c0=c0):
                    pos = ZERO
                    for k, q in zip(ks, keep):
                        pos = pos + (((r0 + k) * sd[n1] + (c0 + k) * sd[n2]) if q == lo else k * sd[q])
                    return t.val(pos)
                res.append(dict(dims=outd, size=prod(outd), facts=H, pieces=[SPiece(ext, value)]))
        return res
    tag = " [rank %d, dimensions %d,%d]" % (rank, i, j)
    check_tensor_result(ctx, fn, "diag" + tag, specf, t.elty, tens=[t], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x) for x in dims] + [cge(w_ + A - 1), cge(B - 1 - w_)], [t], part=part)
    within_rank(ctx, fn, "extents" + tag, [t], [rank], part)
