"""Contractions, products along a dimension, Kronecker products."""
from framework import *
from props import *
from checks.C09 import prod, strides_of
from checks.C08 import summ
import itertools

FN = r"^tensor::(fold|foldc|foldin|fold_into|foldin_into|mmult|mmult_into|scale|scale_inplace|kron|kron2|kron2_sum)\(tensor::Tensor<[^()]*Tensor<[^()]*\)$"


def run(ctx):
    ctx.rule("contraction", "element (i,j,k,m) of the contraction is the sum over l of a(i,l,j)*b(k,l,m), in the documented order of dimensions, conj(a) for foldc")
    ctx.rule("product", "mmult is the matrix product: fold(a,-1,b,0)")
    ctx.rule("scale", "scale multiplies every element by the vector element its index in the stated dimension names")
    ctx.rule("kronecker", "kron(a,b)(i+I*j, k+K*l) = a(j,l)*b(i,k); kron2 is kron with its arguments exchanged; kron2_sum(a,b) = kron(1,b) + kron(a,1)")
    ctx.rule("blas", "every call of gemm satisfies the documented conditions on its extents and leading dimensions")
    ctx.rule("availability", "every valid call is accepted")
    ctx.rule("refusal", "operands whose contracted dimensions differ, and dimension arguments outside [-rank, rank), never yield a result")
    jobs = []
    n = 0
    thorough = ctx.tier == "thorough"
    for fn in ctx.get(FN):
        name = re.match(r"^tensor::(\w+)\(", fn.dem).group(1)
        n += 1
        out = 1 if name.endswith("_into") else 0
        if name.startswith("fold"):
            mixed = fn.src.endswith("_dz.cc")
            top = 4 if thorough else 3
            if not thorough and (mixed or out or name == "foldc" and "complex" not in fn.dem):
                top = 2
            for ra, rb in itertools.product(range(1, top + 1), repeat=2):
                for i, j in itertools.product(range(ra), range(rb)):
                    jobs.append((ra + rb, lambda fn=fn, name=name, ra=ra, rb=rb, i=i, j=j: contraction(ctx, fn, name, out_of(name), ra, rb, i, j)))
                if ra + rb <= (6 if thorough else 4):
                    jobs.append((ra + rb, lambda fn=fn, name=name, ra=ra, rb=rb: contraction(ctx, fn, name, out_of(name), ra, rb, -ra, -1)))
                    jobs.append((ra + rb, lambda fn=fn, name=name, ra=ra, rb=rb: contraction(ctx, fn, name, out_of(name), ra, rb, -1, -rb)))
            if not mixed:
                for bad in ((2, 0), (-3, 0), (0, 2), (0, -3)):
                    jobs.append((1, lambda fn=fn, name=name, bad=bad: refuse(ctx, fn, name, out_of(name), bad)))
        elif name.startswith("mmult"):
            for ra, rb in itertools.product(range(1, 4), repeat=2):
                jobs.append((ra + rb, lambda fn=fn, name=name, ra=ra, rb=rb: contraction(ctx, fn, name, out_of(name), ra, rb, None, None)))
        elif name.startswith("scale"):
            for r in range(1, (6 if thorough else 5)):
                for i in range(-r, r):
                    jobs.append((r, lambda fn=fn, name=name, r=r, i=i: scale(ctx, fn, name, r, i)))
        elif name in ("kron", "kron2"):
            for r in (1, 2):
                jobs.append((r, lambda fn=fn, name=name, r=r: kron(ctx, fn, name, r)))
        else:
            for r in (1, 2):
                jobs.append((r, lambda fn=fn, name=name, r=r: kron_sum(ctx, fn, name, r)))
    jobs.sort(key=lambda x: -x[0])
    ctx.par([j for _, j in jobs])
    if n < 30:
        raise AnalysisError("only %d contraction functions found" % n)


def out_of(name):
    return 1 if name.endswith("_into") else 0


def walk_blas(effs):
    for e in effs:
        if e[0] == "blas":
            yield e
        elif e[0] == "for":
            for conds, body in e[3]:
                yield from walk_blas(body)


def legal(ctx, fn, tag, part, tens):
    """gemm(ta, tb, M, N, K, lda, ldb, ldc): M, N, K >= 0; lda >= max(1, rows of A), ..."""
    w, cases, err = ctx.summary(fn, None, **part)
    rule = "blas" + tag
    if cases is None:
        return ctx.unk(fn, rule, err)
    worst_ = (PROVED, "", None)
    n = 0
    for c in cases:
        F = rank_facts(facts_with_dims(c.facts, tens), tens)
        if infeasible(F):
            continue
        for e in walk_blas(c.eff):
            n += 1
            ta, tb, M, N, K, lda, ldb, ldc = e[2]
            for what, need in (("M", M), ("N", N), ("K", K), ("lda", lda - 1), ("ldb", ldb - 1), ("ldc", ldc - 1),
                               ("lda", lda - (M if ta == "N" else K)), ("ldb", ldb - (K if tb == "N" else N)), ("ldc", ldc - M)):
                v, d = implied(F, cge(need), tens)
                if v == REFUTED or v == UNK and worst_[0] == PROVED:
                    worst_ = (v, "%s of gemm: %s" % (what, d), e[3])
                if v == REFUTED:
                    return ctx.bad(fn, rule, worst_[1], e[3])
    ctx.verdict(fn, rule, worst_[0], worst_[1] or "%d calls" % n, worst_[2])


def contraction(ctx, fn, name, out, ra, rb, i, j):
    mm = i is None
    args = fn.sig.args
    pa, pb = (out, out + 1) if mm else (out, out + 2)
    A, B = tensor_arg(args[pa]), tensor_arg(args[pb])
    n1, n2 = (ra - 1, 0) if mm else (i % ra, j % rb)
    part = ranked({pa: ra, pb: rb}, {} if mm else {out + 1: i, out + 3: j})
    conj = name == "foldc" and A.cplx
    inner = name.startswith("foldin")
    da, db = [A.dim(k) for k in range(ra)], [B.dim(k) for k in range(rb)]
    I, J, K, M = prod(da[:n1]), prod(da[n1 + 1:]), prod(db[:n2]), prod(db[n2 + 1:])
    L = da[n1]
    if inner:       # c(k,i,j,m)
        dims = db[:n2] + da[:n1] + da[n1 + 1:] + db[n2 + 1:]
        ext = [K, I, J, M]
    else:           # c(i,j,k,m)
        dims = da[:n1] + da[n1 + 1:] + db[:n2] + db[n2 + 1:]
        ext = [I, J, K, M]
    dims = dims or [ONE]
    elty = "std::complex<double>" if A.cplx or B.cplx else "double"
    obj = args[0].v if out else None
    tens = [A, B]

    def value(*ks):
        if inner:
            kk, ki, kj, km = ks
        else:
            ki, kj, kk, km = ks
        k = fresh("iv", "q")
        kid = list(k.atoms())[0]
        x, y = A.val(ki + I * (k + L * kj)), B.val(kk + K * (k + L * km))
        if conj:
            x = cconj(x)
        return tuple(mksum(p, kid, L) for p in cmul(x, y))

    def specf(c, F):
        r = implied(F, ceq(da[n1] - db[n2]), tens)
        if r[0] != PROVED:
            return ("refusal", r[0], "contracted dimensions: " + r[1], c.loc)
        return dict(dims=dims, size=prod(dims), pieces=[SPiece(ext, value)], facts=F)
    tag = " [ranks %d,%d%s]" % (ra, rb, "" if mm else ", dimensions %d,%d" % (i, j))
    check_tensor_result(ctx, fn, ("product" if mm else "contraction") + tag, specf, elty, obj=obj, tens=tens, part=part)
    valid = [cge(x) for x in da + db] + [ceq(da[n1] - db[n2])]
    if not inner:
        valid.append(cge(L - 1))
    rejects_only(ctx, fn, "availability" + tag, valid, tens, part=part)
    within_rank(ctx, fn, "extents" + tag, [A, B], [ra, rb], part)
    if not fn.src.endswith("_dz.cc"):
        legal(ctx, fn, tag, part, tens)


def refuse(ctx, fn, name, out, bad):
    part = ranked({out: 2, out + 2: 2}, {out + 1: bad[0], out + 3: bad[1]})

    def specf(c, F):
        return ("refusal", REFUTED, "a dimension outside the rank is accepted", c.loc)
    A, B = tensor_arg(fn.sig.args[out]), tensor_arg(fn.sig.args[out + 2])
    elty = "std::complex<double>" if A.cplx else "double"
    check_tensor_result(ctx, fn, "refusal [ranks 2,2, dimensions %d,%d]" % bad, specf, elty, obj=fn.sig.args[0].v if out else None, tens=[A, B], part=part, none_ok=True)


def scale(ctx, fn, name, rank, i):
    args = fn.sig.args
    T, V = tensor_arg(args[0]), tensor_arg(args[2])
    part = ranked({0: rank}, {1: i})
    n = i % rank
    d = [T.dim(k) for k in range(rank)]
    L, Mi, R = prod(d[:n]), d[n], prod(d[n + 1:])
    obj = T.addr if name == "scale_inplace" else None

    def specf(c, F):
        r = implied(F, ceq(Mi - V.size), [T, V])
        if r[0] != PROVED:
            return ("refusal", r[0], "length of the vector: " + r[1], c.loc)
        return dict(dims=d, size=prod(d), facts=F, pieces=[SPiece([L, Mi, R], lambda a, b, c_: cmul(T.val(a + L * (b + Mi * c_)), V.val(b)))])
    tag = " [rank %d, dimension %d]" % (rank, i)
    check_tensor_result(ctx, fn, "scale" + tag, specf, T.elty, obj=obj, tens=[T, plain_(V)], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x) for x in d] + [ceq(Mi - V.size)], [T, V], part=part)


def plain_(t):
    t.plain = True
    return t


def kron(ctx, fn, name, r):
    S, Q = [tensor_arg(a) for a in fn.sig.args]
    if name == "kron2":
        S, Q = Q, S
    part = ranked({0: r, 1: r})
    if r == 1:
        dims, ext = [Q.size * S.size], [Q.size, S.size]

        def value(i, j):
            return cmul(S.val(j), Q.val(i))
    else:
        I, K, J, L = Q.dim(0), Q.dim(1), S.dim(0), S.dim(1)
        dims, ext = [I * J, K * L], [I, J, K, L]

        def value(i, j, k, l):
            return cmul(S.val(j + J * l), Q.val(i + I * k))
    tag = " [rank %d]" % r
    check_tensor_result(ctx, fn, "kronecker" + tag, lambda c, F: dict(dims=dims, size=prod(dims), facts=F, pieces=[SPiece(ext, value)]), S.elty, tens=[S, Q], part=part)
    rejects_only(ctx, fn, "availability" + tag, [cge(x.dim(k)) for x in (S, Q) for k in range(r)], [S, Q], part=part)


def kron_sum(ctx, fn, name, r):
    S, Q = [tensor_arg(a) for a in fn.sig.args]
    part = ranked({0: r, 1: r})
    if r == 1:
        dims, ext = [Q.size * S.size], [Q.size, S.size]
        check_tensor_result(ctx, fn, "kronecker [rank 1]", lambda c, F: dict(dims=dims, size=prod(dims), facts=F, pieces=[SPiece(ext, lambda i, j: cadd(S.val(j), Q.val(i)))]),
                            S.elty, tens=[S, Q], part=part)
        return
    I, K, J, L = Q.dim(0), Q.dim(1), S.dim(0), S.dim(1)

    def value(i, j, k, l):
        one, two = mkb2i(ceq(j - l)), mkb2i(ceq(i - k))
        return cadd(cmul((one, ZERO), Q.val(i + I * k)), cmul(S.val(j + J * l), (two, ZERO)))
    check_tensor_result(ctx, fn, "kronecker [rank 2]", lambda c, F: dict(dims=[I * J, K * L], size=prod([I * J, K * L]), facts=F, pieces=[SPiece([I, J, K, L], value)]),
                        S.elty, tens=[S, Q], part=part)
    rejects_only(ctx, fn, "availability [rank 2]", [cge(x.dim(k)) for x in (S, Q) for k in range(r)], [S, Q], part=part)
