"""Sparse matrices: construction, structure, conversion."""
from sparse import *
from witness import _int
from fractions import Fraction

SRC = None


def run(ctx):
    ctx.rule("structure", "constructors and conversions produce the documented compressed-row structure")
    ctx.rule("accessor", "the accessors return the stored members; length() is the number of stored entries")
    ctx.rule("conversion", "full(S)(i,j) is S(i,j); Sparse(T) stores exactly the elements of T that are not zero, row by row")
    ctx.rule("element", "S(i,j) is the value stored for row i and column j, zero when none is; indices outside [-extent, extent) are refused")
    ctx.rule("identity", "eye(r,c) has ones on the diagonal and nothing else")
    jobs = []
    for fn in ctx.get(r"^tensor::Sparse<(double|std::complex<double>)>::(Sparse|rows|columns|length|dimension|dimensions|is_empty|priv_\w+|eye|operator=)\("):
        name = re.match(r".*?>+::([\w=]+)\(", fn.dem).group(1)
        elty = "std::complex<double>" if fn.dem.startswith("tensor::Sparse<std") else "double"
        jobs.append(lambda fn=fn, name=name, elty=elty: member(ctx, fn, name, elty))
    for fn in ctx.get(r"^tensor::Sparse<.*::operator\(\)\(long, long\)"):
        elty = "std::complex<double>" if fn.dem.startswith("tensor::Sparse<std") else "double"
        jobs.append(lambda fn=fn, elty=elty: element(ctx, fn, elty))
    for fn in ctx.get(r"full<.*>\(tensor::Sparse"):
        jobs.append(lambda fn=fn: full(ctx, fn))
    for fn in ctx.get(r"^tensor::sparse_rows\("):
        jobs.append(lambda fn=fn: rows(ctx, fn))
    ctx.rule("transpose", "transpose(S) and adjoint(S) are built from the entries (j, i, S(i,j)) — conjugated for the adjoint — with exchanged extents")
    for fn in ctx.get(r"^tensor::(transpose|adjoint)\(tensor::Sparse"):
        jobs.append(lambda fn=fn: trans(ctx, fn))
    ctx.par(jobs)


def params(fn):
    return [a.ty for a in fn.sig.args]


def settle(ctx, fn, rule, cases_v, insts):
    """symbolic verdicts, settled by instances where they are open"""
    x = worst(cases_v)
    if x[1] != PROVED and insts is not None:
        n, d = insts()
        if d:
            return ctx.bad(fn, rule, d, x[3])
        ctx.unk(fn, rule, "agrees on %d instances; %s: %s" % (n, x[0], x[2]), x[3])
        return
    ctx.verdict(fn, rule, x[1], "%s: %s" % (x[0], x[2]) if x[1] != PROVED else "%d paths" % len(cases_v), x[3])


def decide(ctx, fn, rule, part, obj, elty, specf, inst, sps, tens=(), **kw):
    """specf(c, F) -> parts (symbolic), inst(env) -> (rows, cols, entries)"""
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return ctx.unk(fn, rule, err)
    res, n = [], 0
    for c in cases:
        if c.outcome != "ret" or infeasible(facts_with_dims(c.facts, list(tens))):
            continue
        n += 1
        F = facts_with_dims(c.facts, list(tens))
        try:
            sp = specf(c, F)
            if sp is None:
                continue
            vs = [sp] if isinstance(sp, tuple) else sparse_verdict(w, c, obj, elty, sp, sp.get("facts", F))
        except Unknown as e:
            vs = [("specification", UNK, str(e), c.loc)]
        x = worst(vs)
        if x[1] != PROVED and inst is not None:
            cs = CState(w, c)
            k, d = instances(c, None, sps, tens, cmp=lambda env: same_matrix(cs, env, obj, elty, inst(env)), **kw)
            if d:
                vs = [("instance", REFUTED, d, x[3] or c.loc)]
            else:
                vs = [(x[0], UNK, "agrees on %d instances; %s" % (k, x[2]), x[3])]
        res += vs
    if not n:
        return ctx.bad(fn, rule, "the function never returns normally: every path aborts")
    x = worst(res)
    ctx.verdict(fn, rule, x[1], "%s: %s" % (x[0], x[2]) if x[1] != PROVED else "%d paths" % n, x[3])


NAT = lambda a: cge(a)


def member(ctx, fn, name, elty):
    args = fn.sig.args
    tys = params(fn)
    this = fn.sig.this
    zero = (ZERO, ZERO)
    if name == "Sparse":
        if not tys:
            part = formed()
            decide(ctx, fn, "structure", part, this, elty, lambda c, F: dict(dims=dims2(ZERO, ZERO), rs=arr(ONE, SPiece([ONE], lambda k: ZERO)), col=arr(ZERO), data=arr(ZERO)),
                   lambda env: (0, 0, {}), [])
        elif tys == ["long", "long", "long"]:
            r, k, n = [a.v for a in args]
            part = formed(extra=[cge(r), cge(k), cge(n)], key=("nat",))
            decide(ctx, fn, "structure", part, this, elty, lambda c, F: dict(dims=dims2(r, k), rs=arr(r + 1, SPiece([r + 1], lambda q: ZERO))), None, [])
        elif len(tys) == 4:
            D, R, C = [tensor_or_indices(a) for a in args[:3]]
            T = tensor_arg(args[3])
            part = ranked({3: 1})
            decide(ctx, fn, "structure", part, this, elty, lambda c, F: dict(dims=as_is(D), rs=as_is(R), col=as_is(C), data=as_is(T)), None, [], [T])
        elif len(tys) == 1 and "Sparse" in tys[0]:
            S = sparse_arg(args[0])
            decide(ctx, fn, "structure", formed(), this, elty, lambda c, F: dict(dims=as_is(S.dims), rs=as_is(S.rs), col=as_is(S.col), data=as_is(S.data)), None, [])
        elif len(tys) == 1:
            dense(ctx, fn, elty)
        return
    if name == "operator=":
        S = sparse_arg(args[0])
        decide(ctx, fn, "structure", formed(), this, elty, lambda c, F: dict(dims=as_is(S.dims), rs=as_is(S.rs), col=as_is(S.col), data=as_is(S.data)), None, [])
        return
    if name == "eye":
        r = args[0].v
        k = args[1].v if len(args) > 1 else r
        part = formed(extra=[cge(r), cge(k)], key=("nat",))

        def specf(c, F):
            if F.ge0(r - k):
                n = k
            elif F.ge0(k - r):
                n = r
            else:
                return ("structure", UNK, "the smaller extent is not known on this path", c.loc)
            one = (ONE, ZERO) if elty != "double" else ONE
            return dict(dims=dims2(r, k), rs=arr(r + 1, SPiece([r + 1], lambda q: [((cge(n - q),), q), ((cge(q - n - 1),), n)] if not n == r else q)),
                        col=arr(n, SPiece([n], lambda q: q)), data=arr(n, SPiece([n], lambda q: (ONE, ZERO))))

        def inst(env):
            a, b = _int(env.ev(r)), _int(env.ev(k))
            return a, b, {(i, i): (ONE, ZERO) for i in range(min(a, b))}
        vals = [2, 1, 3, 0, 4]
        decide(ctx, fn, "identity", part, fn.sig.sret, elty, specf, inst, [], ints={list(r.atoms())[0]: vals, list(k.atoms())[0]: vals})
        return
    access(ctx, fn, name, elty)


def tensor_or_indices(a):
    t = tensor_arg(a)
    return t if t is not None else Ten(a.v, "long")


def access(ctx, fn, name, elty):
    this = fn.sig.this
    S = Sp(this, elty)
    w, cases, err = ctx.summary(fn, None, **formed(this=True))
    if cases is None:
        return ctx.unk(fn, "accessor", err)
    res = []
    for c in cases:
        if c.outcome != "ret" or infeasible(c.facts):
            continue
        F = c.facts
        off = {"dimensions": 0, "priv_dims": 0, "priv_row_start": 8, "priv_column": 16, "priv_data": 24}.get(name)
        if off is not None:
            want = this + off
        elif name == "rows":
            want = S.rows
        elif name == "columns":
            want = S.cols
        elif name == "length":
            want = ZERO if F.decide(ceq(S.rows)) is True else S.nnz
        elif name == "dimension":
            a = fn.sig.args[0].v
            for v, x in ((0, S.rows), (1, S.cols)):
                G = F.add(ceq(a - v))
                if not infeasible(G) and F.decide(ceq(a - v)) is not False:
                    s = same(c.ret, x, G)
                    res.append(("result", PROVED if s else REFUTED if s is False else UNK, "dimension(%d) is %s" % (v, show(c.ret)), c.loc))
            continue
        elif name == "is_empty":
            r = c.ret
            if isinstance(r, tuple):
                alts = [(F.add(r), TRUE), (F.add(cnot(r)), FALSE)]
            else:
                alts = [(F, ceq(r - 1))]
            for G, got in alts:
                if infeasible(G) or r in (TRUE, FALSE) and got != r:
                    continue
                want = G.decide(cor([ceq(S.rows), ceq(S.cols)]))
                g = got == TRUE
                res.append(("result", UNK if want is None else PROVED if want is g else REFUTED, "is_empty() is %s" % show(r), c.loc))
            continue
        s = same(c.ret, want, F) if not isinstance(c.ret, P) or F.reduce(c.ret - want).t else True
        if s is False and isinstance(c.ret, P) and F.decide(ceq(c.ret - want)) is True:
            s = True
        if s is None and isinstance(c.ret, P):
            q = F.reduce(c.ret - want)
            s = True if not q.t else None
        res.append(("result", PROVED if s else REFUTED if s is False else UNK, "returns %s, not %s" % (show(c.ret), show(want)), c.loc))
    if not res:
        return ctx.bad(fn, "accessor", "every path aborts")
    x = worst(res)
    ctx.verdict(fn, "accessor", x[1], x[2] if x[1] != PROVED else "%d paths" % len(res), x[3])


def dense(ctx, fn, elty):
    """Sparse(T)"""
    T = tensor_arg(fn.sig.args[0])
    part = ranked({0: 2})
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return ctx.unk(fn, "conversion", err)
    this = fn.sig.this
    res = []
    n = 0
    R, K = T.dim(0), T.dim(1)
    for c in cases:
        F = facts_with_dims(c.facts, [T])
        if c.outcome != "ret" or infeasible(F):
            continue
        cs = CState(w, c)
        extra = []
        lanes = 2 if T.cplx else 1
        rnd = random.Random(3)
        opts = []
        for r, k in ((2, 2), (1, 3), (2, 3), (3, 2), (3, 3), (1, 1), (0, 2), (2, 0), (3, 1)):
            for z in range(4 if r * k else 1):
                leaf = {T.size: P.c(r * k), T.rank: P.c(2)}
                txt = []
                for q in range(r * k):
                    nz = z == 0 or z > 1 and rnd.random() < .6
                    pick_ = rnd.randrange(3) if T.cplx else 0
                    v = [P.c(q + 2) if nz and (not T.cplx or pick_ != 1 - l) else ZERO for l in range(lanes)]
                    for l in range(lanes):
                        leaf[T.el(q, l)] = v[l]
                    txt.append("x" if any(x.t for x in v) else ".")
                opts.append((leaf, {P.a("buf", T.addr + 8): (r, k)}, "a %dx%d tensor with elements %s" % (r, k, "".join(txt))))

        def cmp(env):
            r, k = env.dims[P.a("buf", T.addr + 8)]
            ent = {}
            for i in range(r):
                for j in range(k):
                    v = tuple(env.ev(x) for x in T.val(i + r * j))
                    if any(x.t for x in v):
                        ent[i, j] = v
            return same_matrix(cs, env, this, elty, (r, k, ent))
        k, d = instances(c, None, cmp=cmp, extra=[opts])
        n += k
        if d:
            res.append(("instance", REFUTED, d, c.loc))
            continue
        # symbolic: one store of every nonzero element, in row order, columns and values in lock step
        res += lockstep(w, c, this, elty, T, F)
    if not res:
        return ctx.bad(fn, "conversion", "every path aborts")
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, "conversion", "agrees on %d instances; %s: %s" % (n, x[0], x[2]), x[3])
    ctx.verdict(fn, "conversion", x[1], x[2] if x[1] != PROVED else "%d paths, %d instances" % (len(res), n), x[3])


def lockstep(w, c, this, elty, T, F):
    cs = CState(w, c)
    R, K = T.dim(0), T.dim(1)
    es = esize(elty)
    out = []
    try:
        cv, dv, rv = w.vec(cs, this + 16), w.vec(cs, this + 24, es), w.vec(cs, this + 8)
        pc, pd, pr = contents(cs, cv.buf, cv.size, 8, "long"), contents(cs, dv.buf, dv.size, es, elty), contents(cs, rv.buf, rv.size, 8, "long")
    except (Lost, Unknown) as e:
        return [("contents", UNK, str(e), c.loc)]
    r, d = dims_verdict(cs, this - 8, [R, K], F)
    out.append(("dimensions", r, d, c.loc))
    pc = [p for p in pc if p.loops]
    pd = [p for p in pd if p.loops]
    pr2 = [p for p in pr if p.loops]
    lanes = es // 8

    def fail(m):
        return out + [("entries", UNK, m, c.loc)]
    if len(pc) != 1 or len(pd) != lanes or len(pr2) != 1:
        return fail("entries are not stored by one loop nest")
    p = pc[0]
    if len(p.loops) != 2 or any(len(q.loops) != 2 for q in pd) or len(pr2[0].loops) != 1:
        return fail("loop nest")

    def nest(q):
        s = {k: P.a("iv", "N%d" % n) for n, (k, t) in enumerate(q.loops)}
        return s
    i, j = P.a("iv", "N0"), P.a("iv", "N1")
    s = nest(p)
    if not (same(p.loops[0][1], R, F) and same(subst(p.loops[1][1], s), K, F)):
        return fail("loop extents")
    pos = subst(p.off, s)
    nz = zero_test(T, i + R * j, False)

    def guarded(q, val):
        z = nest(q)
        if len(q.alts) != 1 or not same(subst(q.alts[0][1], z), val, F):
            return False
        cs_ = [rebuild_cond(subst(x, z)) for x in q.alts[0][0]]
        return cand(cs_) == nz or set(cs_) == set(nz[1:]) or cor([cand(cs_)]) == nz
    if not guarded(p, j):
        return fail("column stored: " + show(p.alts)[:200])
    el = T.val(i + R * j)
    for l, q in enumerate(sorted(pd, key=lambda q: q.off.t.get((), 0))):
        if not guarded(q, el[l]):
            return fail("value stored: " + show(q.alts)[:200])
        off = subst(q.off, nest(q))
        if (off - 8 * l).scale(Fraction(8, es)) != pos:
            return fail("values and columns are not stored in step")
    # the position advances by one with every stored entry
    b = nzcount(T, i, j, R)
    step = red(F, subst(pos, {list(j.atoms())[0]: j + 1}) - pos - P.c(8) * b)
    row = red(F, subst(pos, {list(j.atoms())[0]: K}) - subst(subst(pos, {list(j.atoms())[0]: ZERO}), {list(i.atoms())[0]: i + 1}))
    first = red(F, subst(pos, {list(j.atoms())[0]: ZERO, list(i.atoms())[0]: ZERO}))
    unroll = lambda x: peel_sums(x)
    step, row, first = unroll(step), unroll(row), unroll(first)
    if step.t or row.t or first.t:
        return fail("positions do not count the stored entries: %s | %s | %s" % (show(step)[:150], show(row)[:150], show(first)[:100]))
    # row starts
    q = pr2[0]
    z = {q.loops[0][0]: i}
    val = subst(q.alts[0][1], z) if len(q.alts) == 1 and not q.alts[0][0] else None
    if val is None or not same(q.loops[0][1], R, F) or subst(q.off, z) != P.c(8) * i + 8:
        return fail("row starts")
    end = peel_sums(red(F, P.c(8) * val - subst(pos, {list(j.atoms())[0]: K})))
    if end.t:
        return fail("row start is not the position reached: " + show(end)[:200])
    p0 = [x for x in pr if not x.loops]
    if len(p0) != 1 or p0[0].off != ZERO or p0[0].alts != [((), ZERO)]:
        return fail("first row start")
    out.append(("entries", PROVED, "", c.loc))
    # number of entries: the size of the two vectors is the last position
    total_ = subst(subst(pos, {list(j.atoms())[0]: ZERO}), {list(i.atoms())[0]: R}).scale(Fraction(1, 8))
    for v in (cv, dv):
        if not flat_equals(v.size, total_, T, F):
            out.append(("size", UNK, "size %s" % show(v.size)[:200], c.loc))
    return out


def zero_test(T, ix, zero):
    v = T.val(ix)
    cs = [cf("une", ZERO, v[0])] + ([cf("une", ZERO, v[1])] if T.cplx else [])
    return cor(cs) if len(cs) > 1 else cs[0]


def nzcount(T, i, j, R):
    return mkb2i(zero_test(T, i + R * j, False))


def peel_sums(x):
    """sum over [0, n+1) -> sum over [0, n) plus the last term"""
    for _ in range(4):
        ch = False
        for m, k in list(x.t.items()):
            for a in m:
                t = atom(a)
                if t[0] == "sum" and t[1].t.get((), 0) == 1 and len(t[1].t) > 1:
                    n1 = t[1] - 1
                    bvid = list(P.a("bv", t[3]).atoms())[0]
                    new = P.a("sum", n1, t[2], t[3]) + subst(t[2], {bvid: n1})
                    x = subst(x, {a: new})
                    ch = True
                    break
            if ch:
                break
        if not ch:
            break
    return x


def flat_equals(flat_, nested, T, F):
    """a sum over all positions p of f(p) against the sum over i, j of f(i + R j): the same terms in another order"""
    R, K = T.dim(0), T.dim(1)
    k = fresh("iv", "z")
    kid = list(k.atoms())[0]
    a = mksum(mkb2i(zero_test(T, k, False)), kid, T.size)
    if red(F, flat_ - a).t:
        return False
    i, j = fresh("iv", "z"), fresh("iv", "z")
    b = mksum(mksum(mkb2i(zero_test(T, i + R * j, False)), list(j.atoms())[0], K), list(i.atoms())[0], R)
    return not red(F, nested - b).t


def full(ctx, fn):
    S = sparse_arg(fn.sig.args[0])
    w, cases, err = ctx.summary(fn, None, **formed())
    if cases is None:
        return ctx.unk(fn, "conversion", err)
    obj = fn.sig.sret
    es = esize(S.elty)
    res, n = [], 0
    for c in cases:
        if c.outcome != "ret" or infeasible(c.facts):
            continue
        F = c.facts
        cs = CState(w, c)
        v, d = dims_verdict(cs, obj, [S.rows, S.cols], F)
        res.append(("extents", v, d, c.loc))

        def cmp(env):
            m = Inst(S, env)
            dn, dd, bad = ints_of(cs, env, obj + 8)
            if bad or dd != [m.r, m.k]:
                return "dimensions %s" % (bad or dd)
            d = m.dense()
            return vals_of(cs, env, obj, S.elty, [d.get((q % m.r, q // m.r), (ZERO, ZERO)) for q in range(m.r * m.k)])
        k, d = instances(c, None, [S], cmp=cmp)
        n += k
        if d:
            res.append(("instance", REFUTED, d, c.loc))
            continue
        res += scatter(w, c, obj, es, S, F)
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, "conversion", "agrees on %d instances; %s: %s" % (n, x[0], x[2]), x[3])
    ctx.verdict(fn, "conversion", x[1], x[2] if x[1] != PROVED else "%d paths, %d instances" % (len(res), n), x[3])


def scatter(w, c, obj, es, S, F):
    cs = CState(w, c)
    v = w.vec(cs, obj, es)
    s = same(v.size, S.rows * S.cols, F)
    out = [("size", PROVED if s else REFUTED if s is False else UNK, "size " + show(v.size)[:100], c.loc)]
    if F.decide(ceq(v.size)) is True or F.decide(cor([ceq(S.rows), ceq(S.cols)])) is True:
        return out
    try:
        ps = contents(cs, v.buf, v.size, es, S.elty)
    except (Lost, Unknown) as e:
        return out + [("elements", UNK, str(e), c.loc)]
    lanes = es // 8
    zero = [p for p in ps if all(a == ((), ZERO) for a in p.alts)]
    rest = [p for p in ps if p not in zero]
    if ps[:len(zero)] != zero:
        return out + [("elements", UNK, "zeros are not written first", c.loc)]
    r, d, _ = compare_contents(zero, [SPiece([v.size], lambda k: (ZERO, ZERO))], v.size, es, F)
    out.append(("zeros", r if r == PROVED else UNK, d, c.loc))
    if len(rest) != lanes:
        return out + [("elements", UNK, "%d stores" % len(rest), c.loc)]
    for p in rest:
        if len(p.loops) != 2 or len(p.alts) != 1 or p.alts[0][0]:
            return out + [("elements", UNK, "store nest", c.loc)]
        i, j = P.a("iv", "N0"), P.a("iv", "N1")
        z = {p.loops[0][0]: i, p.loops[1][0]: j}
        x = S.row(i) + j
        l = int(p.off.t.get((), 0)) // 8
        ok = same(p.loops[0][1], S.rows, F) and same(subst(p.loops[1][1], z), S.count(i), F) \
            and not red(F, subst(p.off, z) - 8 * l - (i + S.rows * S.col.el(x)).scale(es)).t and not red(F, subst(p.alts[0][1], z) - S.data.el(x, l)).t
        out.append(("elements", PROVED if ok else UNK, "store at %s of %s" % (show(subst(p.off, z))[:200], show(p.alts)[:100]), c.loc))
    return out


def rows(ctx, fn):
    """sparse_rows(row_start, column): the row of every entry"""
    R, C = Ten(fn.sig.args[0].v, "long"), Ten(fn.sig.args[1].v, "long")
    n = R.size - 1
    nnz = R.el(n)
    B = P.a("bv", 0)
    facts = [cge(n), ceq(R.el(0)), ceq(C.size - nnz), ("all", n, cge(R.el(B + 1) - R.el(B)), 0),
             ("all", n + 1, cand([cge(R.el(B)), cge(nnz - R.el(B))]), 0)]
    w, cases, err = ctx.summary(fn, None, facts=facts, key="rows")
    if cases is None:
        return ctx.unk(fn, "structure", err)
    res = []
    obj = fn.sig.sret
    k = 0
    for c in cases:
        if c.outcome != "ret" or infeasible(c.facts):
            continue
        F, cs = c.facts, CState(w, c)
        v = w.vec(cs, obj)
        s = same(v.size, C.size, F)
        res.append(("size", PROVED if s else REFUTED if s is False else UNK, "size " + show(v.size)[:100], c.loc))
        opts = []
        for pt in PATTERNS:
            r, q, rs, col = csr(pt)
            opts.append(({R.size: P.c(r + 1), C.size: P.c(len(col))}, {R.buf: tuple(rs), C.buf: tuple(col)}, "row starts %s" % rs))

        def cmp(env):
            rs = env.dims[R.buf]
            want = [i for i in range(len(rs) - 1) for _ in range(rs[i + 1] - rs[i])]
            n_, got, bad = ints_of(cs, env, obj)
            return None if got == want else "%s, not %s" % (bad or got, want)
        m, d = instances(c, None, cmp=cmp, extra=[opts])
        k += m
        if d:
            res.append(("instance", REFUTED, d, c.loc))
            continue
        if F.decide(ceq(n)) is True:
            continue
        try:
            ps = contents(cs, v.buf, v.size, 8, "long")
        except (Lost, Unknown) as e:
            res.append(("contents", UNK, str(e), c.loc))
            continue
        if len(ps) != 1 or len(ps[0].loops) != 2 or len(ps[0].alts) != 1 or ps[0].alts[0][0]:
            res.append(("contents", UNK, "store nest", c.loc))
            continue
        p = ps[0]
        i, j = P.a("iv", "N0"), P.a("iv", "N1")
        z = {p.loops[0][0]: i, p.loops[1][0]: j}
        ok = same(p.loops[0][1], n, F) and same(subst(p.loops[1][1], z), R.el(i + 1) - R.el(i), F) and not red(F, subst(p.off, z) - (R.el(i) + j).scale(8)).t \
            and subst(p.alts[0][1], z) == i
        res.append(("contents", PROVED if ok else UNK, "store nest", c.loc))
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, "structure", "agrees on %d instances; %s: %s" % (k, x[0], x[2]), x[3])
    ctx.verdict(fn, "structure", x[1], x[2] if x[1] != PROVED else "%d paths, %d instances" % (len(res), k), x[3])


def element(ctx, fn, elty):
    """S(i, j): the stored value at that position, zero when nothing is stored there"""
    S = Sp(fn.sig.this, elty)
    a1, a2 = fn.sig.args[0].v, fn.sig.args[1].v
    part = formed(this=True)
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return ctx.unk(fn, "element", err)
    res, n = [], 0
    for c in cases:
        F = c.facts
        if c.outcome != "ret" or infeasible(F):
            continue
        i = a1 if F.ge0(a1) else a1 + S.rows if F.ge0(-a1 - 1) else None
        j = a2 if F.ge0(a2) else a2 + S.cols if F.ge0(-a2 - 1) else None

        vs = []
        symbolic_element(ctx, fn, c, F, S, i, j, vs)
        if all(v[1] == PROVED for v in vs):
            res += vs
            continue

        def cmp(env):
            m = Inst(S, env)
            x, y = _int(env.ev(a1)), _int(env.ev(a2))
            if not (-m.r <= x < m.r and -m.k <= y < m.k):
                return "index (%d,%d) is accepted" % (x, y)
            want = m.dense().get((x % m.r, y % m.k), (ZERO, ZERO))
            got = ret_pair(c, fn)
            if got is None:
                raise Skip("result")
            for l in range(2 if elty != "double" else 1):
                g = env.ev(got[l])
                if compare_cell([(TRUE, g)], [(TRUE, env.ev(want[l]))], [])[0] == REFUTED:
                    return "S(%d,%d) is %s, not %s" % (x, y, show(g), show(want[l]))
        rng = [0, 1, 2, -1, -2, -3, 3]
        ints = {list(a.atoms())[0]: rng for a in (a1, a2)}
        k, d = instances(c, None, [S], cmp=cmp, ints=ints, maxok=200)
        n += k
        if d:
            res.append(("instance", REFUTED, d, c.loc))
            continue
        res += vs
    if not res:
        return ctx.bad(fn, "element", "every path aborts")
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, "element", "agrees on %d instances; %s: %s" % (n, x[0], x[2]), x[3])
    ctx.verdict(fn, "element", x[1], x[2] if x[1] != PROVED else "%d paths, %d instances" % (len(res), n), x[3])


def ret_pair(c, fn):
    r = c.ret
    if isinstance(r, P):
        return (r, ZERO)
    if isinstance(r, tuple) and r and r[0] == "agg" and len(r) == 3:
        return (r[1], r[2])
    return None


def absent(S, F, i, j):
    """no stored entry of row i lies in column j"""
    x = fresh("iv", "e")
    G = F.add(cge(x)).add(cge(S.count(i) - 1 - x)).at(x)
    if infeasible(G) or G.ge0(-S.count(i)):
        return True
    goal = cne(S.col.el(S.row(i) + x) - j)
    if G.decide(goal) is True:
        return True
    for kx in {a for c in F.conds for a in all_atoms(c) if atom(a)[0] == "kx"}:
        k = P({(kx,): 1})
        lo, eq = G.add(cge(k - 1 - x)), G.add(ceq(x - k))
        inc = cge(S.col.el(S.row(i) + x) - S.col.el(S.row(i) + k) - (x - k))      # columns increase along a row
        hi = G.add(cge(x - k - 1)).add(inc)
        if lo.decide(goal) is True and F.decide(cne(S.col.el(S.row(i) + k) - j)) is True and (infeasible(hi) or hi.decide(goal) is True):
            return True
    return False


def symbolic_element(ctx, fn, c, F, S, i, j, vs):
    if i is None or j is None:
        vs.append(("index", UNK, "sign of an index is not known on this path", c.loc))
        return
    # rejected indices
    ok = F.ge0(i) and F.ge0(S.rows - 1 - i) and F.ge0(j) and F.ge0(S.cols - 1 - j)
    if not ok:
        vs.append(("index", UNK, "range of the indices", c.loc))
        return
    got = ret_pair(c, fn)
    if got is None:
        vs.append(("result", UNK, show(c.ret)[:100], c.loc))
        return
    g0 = F.reduce(got[0])
    s = got[0].single() or g0.single()
    if not g0.t and not F.reduce(got[1]).t:
        vs.append(("zero", PROVED if absent(S, F, i, j) else UNK, "the position may hold a value", c.loc))
    elif s and s[0] == "ld":
        x = (s[2] - (S.data.buf if got[0].single() else F.reduce(S.data.buf))).scale(Fraction(1, S.data.es))
        ge = lambda q: F.decide(cge(q)) is True or F.decide(cge(red(F, q))) is True
        ok = same(S.col.el(x), j, F) is True and ge(x - S.row(i)) and ge(S.row(i + 1) - 1 - x) and all(F.reduce(g - v) == ZERO for g, v in zip(got, S.data.val(x)))
        vs.append(("value", PROVED if ok else UNK, "position " + show(x)[:120], c.loc))
    else:
        vs.append(("result", UNK, show(c.ret)[:100], c.loc))


TRIPLET = r"^tensor::Sparse<(double|std::complex<double>)>::Sparse\(tensor::Indices const&, tensor::Indices const&, tensor::Tensor<.*> const&, long, long\)$"


def trans(ctx, fn):
    """transpose and adjoint hand the entries, with rows and columns exchanged, to the constructor from coordinates"""
    S = sparse_arg(fn.sig.args[0])
    elty = S.elty
    conj = "adjoint" in fn.dem and elty != "double"
    w, cases, err = ctx.summary(fn, None, **formed())
    if cases is None:
        return ctx.unk(fn, "transpose", err)
    res, n = [], 0
    for c in cases:
        F, cs = c.facts, CState(w, c)
        if c.outcome != "ret" or infeasible(F):
            continue
        calls = [e for e in c.eff if e[0] == "call"]
        if len(calls) == 1 and calls[0][1].startswith("tensor::transpose(") and not conj and calls[0][2] == [fn.sig.sret, S.addr]:
            res.append(("call", PROVED, "transpose(S)", c.loc))
            continue
        calls = [e for e in calls if re.match(TRIPLET, e[1])]
        if len(calls) != 1 or calls[0][2][0] != fn.sig.sret or [e for e in c.eff if e[0] in ("call", "havoc")] != [e for e in c.eff if e is calls[0] or e[0] == "havoc" and e[2] == calls[0][5]]:
            res.append(("shape", UNK, "not a call of the constructor from coordinates", c.loc))
            continue
        ra, ca, da, nr, nk = calls[0][2][1:]

        def cmp(env):
            m = Inst(S, env)
            _, r, b1 = ints_of(cs, env, ra)
            _, k, b2 = ints_of(cs, env, ca)
            a, b = _int(env.ev(nr)), _int(env.ev(nk))
            if a is None or b is None:
                raise Skip("extents")
            if b1 or b2:
                return b1 or b2
            want = list(m.entries())
            ent = [(j, i) for i, j, v in want]
            if sorted(zip(r, k)) != sorted(ent):
                return "the entries are %s, not %s" % (sorted(zip(r, k)), sorted(ent))
            dim = max([a] + [x + 1 for x in r]), max([b] + [x + 1 for x in k])
            if dim != (m.k, m.r):
                return "extents (%d,%d)" % dim
            pos = {e: v for e, (i, j, v) in zip(ent, want)}
            vs = [pos[e] for e in zip(r, k)]
            return vals_of(cs, env, da, elty, [(v[0], -v[1]) if conj else v for v in vs])
        k, d = instances(c, None, [S], cmp=cmp, maxok=16)
        n += k
        if d:
            res.append(("instance", REFUTED, d, c.loc))
            continue
        try:
            for what, addr, nn, es, ty, val in (("rows", ra, S.nnz, 8, "long", lambda x: S.col.el(x)), ("values", da, S.nnz, esize(elty), elty,
                                                lambda x: S.data.val(x) if not conj else (S.data.val(x)[0], -S.data.val(x)[1]))):
                v = w.vec(cs, addr, es)
                sz = same(v.size, nn, F)
                vv, d, l = compare_contents(contents(cs, v.buf, v.size, es, ty), [SPiece([nn], val)], nn, es, F)
                res.append((what, vv if sz else UNK, d, l or c.loc))
            v = w.vec(cs, ca, 8)
            vv, d = rownest(cs, v, S, F)
            res.append(("columns", vv, d, c.loc))
        except (Lost, Unknown) as e:
            res.append(("contents", UNK, str(e), c.loc))
        for what, x, y in (("rows()", nr, S.cols), ("columns()", nk, S.rows)):
            s = same(x, y, F)
            res.append((what, PROVED if s else REFUTED if s is False else UNK, "extent %s" % show(x), c.loc))
    if not res:
        return ctx.bad(fn, "transpose", "every path aborts")
    x = worst(res)
    if x[1] == UNK:
        return ctx.unk(fn, "transpose", "agrees on %d instances; %s: %s" % (n, x[0], x[2]), x[3])
    ctx.verdict(fn, "transpose", x[1], "%s: %s" % (x[0], x[2]) if x[1] != PROVED else "%d obligations, %d instances" % (len(res), n), x[3])


def rownest(cs, v, S, F):
    """v holds, for every stored entry, the number of its row"""
    if same(v.size, S.nnz, F) is not True:
        return UNK, "size %s" % show(v.size)
    ps = contents(cs, v.buf, v.size, 8, "long")
    if len(ps) != 1 or len(ps[0].loops) != 2 or len(ps[0].alts) != 1 or ps[0].alts[0][0]:
        return UNK, "store nest"
    p = ps[0]
    i, j = P.a("iv", "N0"), P.a("iv", "N1")
    z = {p.loops[0][0]: i, p.loops[1][0]: j}
    ok = same(p.loops[0][1], S.rows, F) and same(subst(p.loops[1][1], z), S.count(i), F) and not red(F, subst(p.off, z) - (S.row(i) + j).scale(8)).t \
        and subst(p.alts[0][1], z) == i
    return (PROVED if ok else UNK), "store nest"
