"""Sparse matrices: arithmetic."""
from sparse import *
from witness import _int
from fractions import Fraction
from contracts import OPS, UN
import C13
from C13 import decide, params, trans

SP = r"tensor::Sparse<(double|std::complex<double>)> const&"


def el_of(ty):
    return "std::complex<double>" if "complex" in ty else "double"


def run(ctx):
    ctx.rule("map", "scalar products and quotients, negation, real, imag, conj and to_complex keep the structure and act on every stored value")
    jobs = []
    for fn in ctx.get(r"^tensor::(operator-|real|imag|conj|to_complex)\(tensor::Sparse<[^,]*> const&\)$|^tensor::operator[*/]\(tensor::Sparse<[^,]*> const&, (double|std::complex<double>)\)$"
                      r"|^tensor::operator\*\((double|std::complex<double>), tensor::Sparse<[^,]*> const&\)$"):
        jobs.append(lambda fn=fn: mapped(ctx, fn))
    ctx.rule("product", "mmult(S,T) and mmult(T,S) contract the last index of the first with the first index of the second factor")
    for fn in ctx.get(r"^tensor::mmult\(tensor::(Sparse<[^,]*> const&, tensor::Tensor|Tensor<[^,]*> const&, tensor::Sparse)"):
        jobs.append(lambda fn=fn: (sp_t if fn.dem.startswith("tensor::mmult(tensor::Sparse") else t_sp)(ctx, fn))
    ctx.rule("kron", "kron(A,B) has the entry A(k,l) B(i,j) at row i + rows(B) k and column j + columns(B) l, rows and columns in order; kron2 exchanges the factors")
    for fn in ctx.get(r"^tensor::kron2?\(tensor::Sparse|tensor::do_kron<.*\(tensor::Sparse"):
        jobs.append(lambda fn=fn: kron(ctx, fn))
    ctx.rule("kron sum", "kron2_sum(B,A) is kron(A,1) + kron(1,B) with identities of the size of the other factor")
    for fn in ctx.get(r"^tensor::kron2_sum\(tensor::Sparse"):
        jobs.append(lambda fn=fn: kronsum(ctx, fn))
    ctx.par(jobs)


def scalar(fn, k):
    """lanes of a scalar parameter"""
    return tuple(fn.sig.args[k].vals)


def mapped(ctx, fn):
    name = re.match(r"^tensor::(operator.|\w+)\(", fn.dem).group(1)
    tys = params(fn)
    sp = [sparse_arg(a) for a in fn.sig.args]
    S = [s for s in sp if s is not None][0]
    out = "double" if name in ("real", "imag") or "complex" not in "".join(tys) else "std::complex<double>"
    if name == "to_complex":
        out = "std::complex<double>"

    def val(x):
        v = S.data.val(x) if S.elty != "double" else (S.data.el(x),)
        if len(tys) == 1:
            r = UN["neg" if name == "operator-" else name](v)
        else:
            k = 0 if sp[0] is None else 1
            p = scalar(fn, k)
            r = OPS[name[-1]](v, p)
        return tuple(r)

    def specf(c, F):
        return dict(dims=as_is(S.dims), rs=as_is(S.rs), col=as_is(S.col), data=arr(S.nnz, SPiece([S.nnz], lambda x: val(x) if out != "double" else val(x)[0])))

    def inst(env):
        m = Inst(S, env)
        d = {}
        for i in range(m.r):
            for x in range(m.rs[i], m.rs[i + 1]):
                d[i, m.col[x]] = (val(P.c(x)) + (ZERO,))[:2]
        return m.r, m.k, d
    decide(ctx, fn, "map", formed(), fn.sig.sret, out, specf, inst, [S])


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def sp_t(ctx, fn):
    S, T = sparse_arg(fn.sig.args[0]), tensor_arg(fn.sig.args[1])
    for rank in (1, 2, 3, 4, 5) if ctx.tier == "thorough" else (1, 2, 3, 4):
        def specf(c, F):
            j = T.dim(0)
            if not F.eq0(j - S.cols) and not same(j, S.cols, F):
                return mismatch(c, S, T, j, S.cols)
            rest = [T.dim(k) for k in range(1, rank)]

            def val(i, l):
                x = fresh("iv", "q")
                xid = list(x.atoms())[0]
                p = S.row(i) + x
                v = cmul(pair(S.data, p), pair(T, S.col.el(p) + j * l))
                return tuple(mksum(q, xid, S.count(i)) for q in v[:2 if T.cplx else 1])
            ext = [S.rows, prod(rest)]
            return dict(dims=[S.rows] + rest, size=prod(ext), pieces=[SPiece(ext, val)], extra=[options(S)])
        check_tensor_result(ctx, fn, "product", specf, S.elty, part=formed({fn.sig.args.index(fn.sig.args[1]): rank}))


def pair(T, k):
    v = T.val(k)
    return (v[0], v[1] if T.cplx else ZERO)


def mismatch(c, S, T, a, b):
    """the path does not imply that the contracted extents agree: an instance that is let through"""
    n, d = instances(c, None, [S], [T], cmp=lambda env: None if _int(env.ev(a)) == _int(env.ev(b)) else "extents %s and %s are contracted" % (env.ev(a), env.ev(b)), maxok=200)
    return ("extents", REFUTED if d else UNK, d or "contracted extents", c.loc)


def t_sp(ctx, fn):
    T, S = tensor_arg(fn.sig.args[0]), sparse_arg(fn.sig.args[1])
    obj = fn.sig.sret
    nl = 2 if T.cplx else 1
    for rank in (1, 2, 3, 4, 5) if ctx.tier == "thorough" else (1, 2, 3, 4):
        w, cases, err = ctx.summary(fn, None, **formed({0: rank}))
        if cases is None:
            ctx.unk(fn, "product", err)
            continue
        res = []
        for c in cases:
            F, cs = facts_with_dims(c.facts, [T]), CState(w, c)
            if c.outcome != "ret" or infeasible(F):
                continue
            lead = [T.dim(k) for k in range(rank - 1)]
            I, J = prod(lead), T.dim(rank - 1)
            if not F.eq0(J - S.rows) and not same(J, S.rows, F):
                res.append(mismatch(c, S, T, J, S.rows))
                continue
            v = w.vec(cs, obj, 8 * nl)
            s = same(v.size, I * S.cols, F)
            res.append(("size", PROVED if s else REFUTED if s is False else UNK, "size %s" % show(v.size)[:100], c.loc))
            res.append(("extents",) + tuple(dims_verdict(cs, obj, lead + [S.cols], F)) + (c.loc,))
            try:
                ps = contents(cs, v.buf, v.size, 8 * nl, T.elty)
            except (Lost, Unknown) as e:
                res.append(("contents", UNK, str(e), c.loc))
                continue
            vv, d = accumulate(ps, T, S, I, v, nl, F)
            if vv != PROVED:
                def cmp(env):
                    m = Inst(S, env)
                    n = _int(env.ev(I))
                    want = {}
                    for r, k, x in m.entries():
                        for q in range(n):
                            y = cmul(pair(T, P.c(q + n * r)), (x[0], x[1] if T.cplx else ZERO))
                            o = want.get(q + n * k, (ZERO, ZERO))
                            want[q + n * k] = cadd(o, y)
                    return vals_of(cs, env, obj, T.elty, [want.get(q, (ZERO, ZERO)) for q in range(n * m.k)])
                n, bad = instances(c, None, [S], [T], cmp=cmp)
                if bad:
                    vv, d = REFUTED, bad
                else:
                    vv, d = UNK, "agrees on %d instances; %s" % (n, d)
            res.append(("contents", vv, d, c.loc))
        if not res:
            ctx.bad(fn, "product", "rank %d: every path aborts" % rank)
            continue
        x = worst(res)
        ctx.verdict(fn, "product", x[1], "rank %d: %s: %s" % (rank, x[0], x[2]) if x[1] != PROVED else "rank %d: %d obligations" % (rank, len(res)), x[3])


def accumulate(ps, T, S, I, v, nl, F):
    """zeros, then a nest over the rows of S, the entries of the row and the positions of a column of T that adds T(q,j) S(j,l) at (q,l)"""
    fill = [p for p in ps if len(p.loops) <= 1 and len(p.alts) == 1 and not p.alts[0][0] and p.alts[0][1] == ZERO]
    nest = [p for p in ps if p not in fill]
    lanes = set()
    for p in fill:
        lanes |= {int(p.off.t.get((), 0)) // 8}
    vv, d, l = compare_contents(fill, [SPiece([v.size], lambda k: (ZERO,) * nl if nl > 1 else ZERO)], v.size, 8 * nl, F)
    if vv != PROVED:
        return UNK, "initial zeros: %s" % d
    if not nest:
        z = [F.decide(ceq(x)) is True for x in (S.nnz, I, v.size)]
        return (PROVED, "") if any(z) else (UNK, "no accumulation")
    got = set()
    for p in nest:
        if len(p.loops) not in (2, 3) or len(p.alts) != 1 or p.alts[0][0]:
            return UNK, "store nest"
        i, j, q = (P.a("iv", "N%d" % k) for k in range(3))
        z = {kk: x for (kk, _), x in zip(p.loops, (i, j, q))}
        if len(p.loops) == 2:
            if not same(I, ONE, F):
                return UNK, "store nest"
            q = ZERO
        sb = lambda x: subst(x, z)
        G = F.add(cge(i)).add(cge(S.rows - 1 - i)).add(cge(j))
        if not (same(sb(p.loops[0][1]), S.rows, F) and same(sb(p.loops[1][1]), S.count(i), G) and (len(p.loops) == 2 or same(sb(p.loops[2][1]), I, F))):
            return UNK, "extents of the nest"
        x = S.row(i) + j
        off = red(F, sb(p.off) - (I * S.col.el(x) + q).scale(8 * nl))
        lane = off.const()
        if lane not in [8 * k for k in range(nl)]:
            return UNK, "position of the sum: %s" % show(off)[:120]
        lane = int(lane) // 8
        val = sb(p.alts[0][1])
        want = cmul(pair(T, q + I * i), pair(S.data, x))[lane]
        old = red(F, val - want)
        s = old.single()
        if not (s and s[0] == "carried" and not red(F, s[2] - v.buf - sb(p.off)).t):
            return UNK, "adds %s" % show(val)[:200]
        got.add(lane)
    return (PROVED, "") if len(got) == nl and len(nest) == nl else (UNK, "lanes")



def calls_of(c):
    """the calls kept as events, with nothing else written"""
    calls = [e for e in c.eff if e[0] == "call"]
    rest = [e for e in c.eff if e[0] not in ("call", "havoc", "mark")]
    return calls, rest


def kron(ctx, fn):
    A, B = [sparse_arg(a) for a in fn.sig.args]
    obj = fn.sig.sret
    if "::kron2(" in fn.dem:
        A, B = B, A
    w, cases, err = ctx.summary(fn, None, **formed())
    if cases is None:
        return ctx.unk(fn, "kron", err)
    res, ni = [], 0
    for c in cases:
        F, cs = c.facts, CState(w, c)
        if c.outcome != "ret" or infeasible(F):
            continue
        calls, rest = calls_of(c)
        if len(calls) == 1 and not rest and re.search(r"tensor::(kron2?|do_kron<[^(]*>)\(tensor::Sparse", calls[0][1]):
            a = calls[0][2]
            want = [obj, A.addr, B.addr]
            if "::kron2(" in calls[0][1]:
                want = [obj, B.addr, A.addr]
            res.append(("call", PROVED if a == want else REFUTED if len(a) == 3 and a[0] == obj and all(q in (A.addr, B.addr) for q in a[1:]) else UNK, "%s(%s)" % (calls[0][1].split("(")[0], ", ".join(map(show, a[1:]))), c.loc))
            continue
        vs = kron_closed(w, c, cs, F, obj, A, B)
        if any(v[1] != PROVED for v in vs):
            def cmp(env):
                a, b = Inst(A, env), Inst(B, env)
                d = {}
                for k, l, x in a.entries():
                    for i, j, y in b.entries():
                        z = cmul((x[0], x[1] if A.data.cplx else ZERO), (y[0], y[1] if A.data.cplx else ZERO))
                        d[i + b.r * k, j + b.k * l] = z
                return same_matrix(cs, env, obj, A.elty, (a.r * b.r, a.k * b.k, d))
            n, bad = instances(c, None, [A, B], cmp=cmp, maxok=40)
            ni += n
            if bad:
                vs = [("instance", REFUTED, bad, c.loc)]
        res += vs
    finish(ctx, fn, "kron", res, ni)


def finish(ctx, fn, rule, res, ni):
    if not res:
        return ctx.bad(fn, rule, "every path aborts")
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, rule, "agrees on %d instances; %s: %s" % (ni, x[0], x[2]), x[3])
    ctx.verdict(fn, rule, x[1], "%s: %s" % (x[0], x[2]) if x[1] != PROVED else "%d obligations" % len(res), x[3])


def kron_closed(w, c, cs, F, obj, A, B):
    out = []
    nl = 2 if A.data.cplx else 1
    r, k = A.rows * B.rows, A.cols * B.cols
    n = A.nnz * B.nnz
    if F.eq0(n) or F.decide(ceq(n)) is True:
        return sparse_verdict(w, c, obj, A.elty, dict(dims=dims2(r, k), rs=arr(r + 1, SPiece([r + 1], lambda q: ZERO)), col=arr(ZERO), data=arr(ZERO)), F)
    out += sparse_verdict(w, c, obj, A.elty, dict(dims=dims2(r, k)), F)
    rs, col, data = [w.vec(cs, obj + o, e) for o, e in ((8, 8), (16, 8), (24, 8 * nl))]
    for what, v, m in (("row starts", rs, r + 1), ("columns", col, n), ("values", data, n)):
        s = same(v.size, m, F)
        out.append((what, PROVED if s else REFUTED if s is False else UNK, "size %s" % show(v.size)[:100], c.loc))
    try:
        prs = contents(cs, rs.buf, rs.size, 8, "long")
        pcol = contents(cs, col.buf, col.size, 8, "long")
        pdat = contents(cs, data.buf, data.size, 8 * nl, A.elty)
    except (Lost, Unknown) as e:
        return out + [("contents", UNK, str(e), c.loc)]
    v, d = dims_verdict(cs, obj + 24, [n], F)
    out.append(("shape of the values", v, d, c.loc))
    N = [P.a("iv", "N%d" % q) for q in range(4)]

    def norm(p, m):
        if len(p.loops) != m or len(p.alts) != 1 or p.alts[0][0]:
            return None
        z = {kk: x for (kk, _), x in zip(p.loops, N)}
        return [subst(t, z) for _, t in p.loops], subst(p.off, z), subst(p.alts[0][1], z)

    def nest(p, m):
        q = norm(p, m)
        if q is None:
            return None
        ext = [A.rows, B.rows, A.count(N[0]), B.count(N[1])][:m]
        if not all(same(a, b, F) for a, b in zip(q[0], ext)):
            return None
        return q[1], q[2]
    a, b, x, y = N
    pos = A.row(a) * B.nnz + A.count(a) * B.row(b) + x * B.count(b) + y
    pa, pb = A.row(a) + x, B.row(b) + y
    good = True
    for p in pcol:
        q = nest(p, 4)
        good = good and q is not None and not red(F, q[0] - pos.scale(8)).t and not red(F, q[1] - B.col.el(pb) - B.cols * A.col.el(pa)).t
    out.append(("columns", PROVED if good and len(pcol) == 1 else UNK, "positions and columns of the entries", c.loc))
    good, lanes = True, set()
    val = cmul(pair(A.data, pa), pair(B.data, pb))
    for p in pdat:
        q = nest(p, 4)
        if q is None:
            good = False
            break
        o = red(F, q[0] - pos.scale(8 * nl)).const()
        if o not in [8 * l for l in range(nl)] or red(F, q[1] - val[int(o) // 8]).t:
            good = False
            break
        lanes.add(int(o))
    out.append(("values", PROVED if good and len(lanes) == nl == len(pdat) else UNK, "positions and values of the entries", c.loc))
    first, good = False, len(prs) == 2
    for p in prs:
        if not p.loops:
            first = first or not p.off.t and p.alts == [((), ZERO)]
            continue
        q = nest(p, 2)
        end = A.row(a) * B.nnz + A.count(a) * B.row(b + 1)
        good = good and q is not None and not red(F, q[0] - (a * B.rows + b + 1).scale(8)).t and not red(F, q[1] - end).t
    out.append(("row starts", PROVED if good and first else UNK, "row starts", c.loc))
    return out


def kronsum(ctx, fn):
    B, A = [sparse_arg(a) for a in fn.sig.args]
    w, cases, err = ctx.summary(fn, None, **formed())
    if cases is None:
        return ctx.unk(fn, "kron sum", err)
    res = []
    for c in cases:
        F = c.facts.add(ceq(A.rows - A.cols)).add(ceq(B.rows - B.cols))
        if c.outcome != "ret" or infeasible(F):
            continue
        calls, rest = calls_of(c)
        node = {A.addr: ("A",), B.addr: ("B",)}
        for e in calls:
            a = e[2]
            m = re.match(r"^tensor::(?:Sparse<.*?>::)?(\w+|operator.)\(", e[1].replace("std::complex<double>", "cdouble"))
            nm = m.group(1) if m else "?"
            if nm == "eye":
                x = [q for q in ("A", "B") for S in ((A if q == "A" else B),) if all(same(z, S.rows, F) is True for z in a[1:])]
                node[a[0]] = ("eye", x[0] if len(x) == 1 else "?" if not x else x[0])
            else:
                ch = [node.get(z, ("?",)) for z in a[1:]]
                if nm == "kron2":
                    nm, ch = "kron", ch[::-1]
                if nm == "operator+":
                    ch = sorted(ch, key=repr)
                node[a[0]] = (nm,) + tuple(ch)
        got = node.get(fn.sig.sret, ("?",))
        want = ("operator+",) + tuple(sorted([("kron", ("A",), ("eye", "B")), ("kron", ("eye", "A"), ("B",))], key=repr))
        known = "?" not in repr(got) or all(n[0] != "?" for n in node.values())
        res.append(("terms", PROVED if got == want and not rest else REFUTED if known and got[0] in ("operator+", "operator-", "kron") else UNK, "the result is %r" % (got,), c.loc))
    finish(ctx, fn, "kron sum", res, 0)
