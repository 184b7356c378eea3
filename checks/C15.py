"""Linear algebra drivers: the problem handed to LAPACK, the room given to it, and the answer passed on."""
from lapack import *

ROUTINE = {"solve": "gesv", "svd": "gesvd", "eig": "geev", "eig_sym": ("syev", "heev")}


def run(ctx):
    ctx.rule("problem", "the routine is called on the elements and extents of the argument, and asked for the parts the caller wants")
    ctx.rule("legal", "every call satisfies the documented conditions: leading dimensions, the room behind every array it writes, the length of its workspace")
    ctx.rule("answer", "the returned tensors have the documented extents and hold what the routine left in the corresponding array")
    ctx.rule("refusal", "systems that are not square or do not match, and systems reported as singular, never yield a result")
    ctx.rule("availability", "every non-empty matrix of the documented kind is accepted")
    ctx.rule("pairs", "eigenvectors of complex pairs of a real matrix are assembled from the two columns LAPACK keeps them in, and the search goes on behind the pair")
    n = 0
    jobs = []
    for fn in ctx.get(r"^linalg::(solve|svd|eig|eig_sym)\(tensor::Tensor<(double|std::complex<double> ?)>( const&)?,", "vec"):
        name = re.match(r"^linalg::(\w+)\(", fn.dem).group(1)
        ts = [tensor_arg(a) for a in fn.sig.args]
        if name == "solve" and (len(ts) != 2 or None in ts[:2]):
            continue
        n += 1
        for r in ((1, 2, 3) if name == "solve" else (None,)):
            jobs.append(lambda fn=fn, name=name, r=r: driver(ctx, fn, name, r))
    ctx.par(jobs)
    if n < 8:
        raise AnalysisError("only %d drivers found" % n)


def ptr_ten(a):
    """output argument: Tensor<...>*"""
    m = re.match(r"^tensor::Tensor<(.*)> ?\*$", a.ty)
    return Ten(a.v, m.group(1).strip()) if m else None


def driver(ctx, fn, name, r):
    tag = " [rank %d]" % r if r else ""
    part = ranked({0: 2, 1: r} if name == "solve" else {0: 2}, unroll=0)
    w, cases, err = ctx.summary(fn, None, **part)
    rules = ["problem", "legal", "answer", "refusal", "availability"] + (["pairs"] if name == "eig" and "Tensor<double>" in fn.dem.split(",")[0] else [])
    if cases is None:
        for x in rules:
            ctx.unk(fn, x + tag, err)
        return
    A = tensor_arg(fn.sig.args[0])
    res = {x: [] for x in rules}
    rets = 0
    for c in cases:
        if c.outcome != "ret":
            continue
        c = Left(w, c)
        F = fuller(rank_facts(c.facts, [A]))
        F = F.add(cge(A.dim(0) - 1)).add(cge(A.dim(1) - 1))
        if infeasible(F):
            continue
        rets += 1
        m, n = A.dim(0), A.dim(1)
        parts = [F] if name != "svd" or mn(F, m, n) else [F.add(cge(n - m)), F.add(cge(m - n - 1))]
        for D in [Driver(fn, name, r, w, c, G, A) for G in parts]:
            for x in rules:
                try:
                    res[x] += getattr(D, x)() if x != "availability" else []
                except (Unknown, Lost) as e:
                    res[x].append((UNK, str(e), c.loc))
    if not rets:
        return ctx.bad(fn, "availability" + tag, "the function never returns normally: every path aborts")
    for x in rules:
        if x == "availability":
            continue
        v = max(res[x], key=lambda o: {REFUTED: 2, UNK: 1, PROVED: 0}[o[0]], default=(PROVED, "", None))
        ctx.verdict(fn, x + tag, v[0], v[1] if v[0] != PROVED else "%d cases" % rets, v[2])
    # valid calls are not turned away
    valid = [cge(A.dim(0) - 1), cge(A.dim(1) - 1)]
    tens = [A]
    if name != "svd":
        valid.append(ceq(A.dim(0) - A.dim(1)))
    if name == "solve":
        B = tensor_arg(fn.sig.args[1])
        tens.append(B)
        valid += [ceq(A.dim(0) - B.dim(0))] + [cge(B.dim(k)) for k in range(r)]
    bad = unk = None
    for c in cases:
        if c.outcome == "ret":
            continue
        F = fuller(rank_facts(c.facts, tens))
        if infeasible(F) or contradicts(F, valid) or reported(F):
            continue
        d = counterexample([strip(x) for x in c.facts.conds] + valid, tens)
        if d:
            bad = (d, c)
        else:
            unk = c
    if bad:
        ctx.bad(fn, "availability" + tag, "aborts for the valid call %s" % bad[0], bad[1].loc)
    elif unk:
        ctx.unk(fn, "availability" + tag, "abort path %s" % show(list(unk.facts.conds))[:160], unk.loc)
    else:
        ctx.ok(fn, "availability" + tag, "no valid call aborts")


def reported(F):
    """the path is one on which a routine has reported a failure"""
    for c in F.conds:
        if c[0] in ("ne", "ge", "eq") and isinstance(c[1], P):
            for i in all_atoms(c[1]):
                a = atom(i)
                if a[0] == "ldv" and a[1] == "i32":
                    return True
        elif c[0] in ("bool", "nbool") and "ldv" in show(c):
            return True
        elif c[0] in ("or", "and") and "ldv" in show(c):
            return True
    return False


class Driver:
    def __init__(self, fn, name, r, w, c, F, A):
        self.fn, self.name, self.r, self.w, self.c, self.F, self.A = fn, name, r, w, c, F, A
        self.calls = c.calls
        want = ROUTINE[name]
        want = want if isinstance(want, tuple) else (want,)
        self.main = [k for k in self.calls if k.name[1:-1] in want and not k.query]
        self.z = A.es // 8
        self.outs = [ptr_ten(a) for a in fn.sig.args]

    def the(self):
        if len(self.main) != 1:
            raise Unknown("%d calls of %s" % (len(self.main), ROUTINE[self.name]))
        return self.main[0]

    def tens(self):
        """(tensor, rank) of the arguments whose extents are at stake"""
        return [(self.A, 2)] + ([(tensor_arg(self.fn.sig.args[1]), self.r)] if self.name == "solve" else [])

    def legal(self):
        out = []
        for k in self.calls:
            for what, form in needs(k, self.F):
                v, d = settled(self.F, cge(form), self.tens())
                out.append((v, "%s of %s is too small: %s" % (what, k.name, d), k.loc))
        return out

    def eq(self, got, want, what, loc):
        s = same(got, want, self.F)
        if s is True:
            return (PROVED, "", loc)
        if any(bad_atoms(x) for x in (got, want)):
            if bad_atoms(got, ("uninit",)) and not any(bad_atoms(x, ("unk", "kx", "phi", "mphi", "carried", "ldv")) for x in (got, want)):
                return (REFUTED, "%s: a value that is never set is used: %s" % (what, show(got)[:80]), loc)
            return (UNK, "%s: %s" % (what, show(got)[:80]), loc)
        v, d = settled(self.F, ceq(got - want), self.tens())
        return (v, "%s is %s, not %s" % (what, show(red(self.F, got))[:80], show(red(self.F, want))[:80]), loc)

    def wanted(self, q):
        """does the caller ask for output argument q?"""
        a = self.fn.sig.args[q].v
        d = self.F.decide(cne(a))
        if d is None:
            raise Unknown("whether %s is wanted" % show(a))
        return d

    def flag(self, q):
        a = self.fn.sig.args[q].v
        d = self.F.decide(a if isinstance(a, tuple) else cne(a))
        if d is None:
            b = P.a("arg", *atom(list(a[1].atoms())[0])[1:]) if isinstance(a, tuple) else a
            raise Unknown("whether %s is set" % show(b))
        return d

    def holds(self, k, x, t):
        """array argument x of the call has the elements of tensor argument t"""
        ps = contents(k.cs, k.arg(x), t.size, t.es, t.elty)
        v, d, l = compare_contents(ps, [SPiece([t.size], lambda i: t.val(i) if t.cplx else (t.val(i)[0],))], t.size, t.es, self.F)
        if v != PROVED and self.name == "eig_sym" and not t.cplx:
            # a symmetric matrix is its own transpose
            r, c_ = t.dim(0), t.dim(1)
            if compare_contents(ps, [SPiece([c_, r], lambda i, j: (t.val(j + r * i)[0],))], t.size, t.es, self.F)[0] == PROVED:
                return (PROVED, "", k.loc)
        return (v, "%s of %s: %s" % (x, k.name, d), l or k.loc)

    def problem(self):
        k, A = self.the(), self.A
        out = []
        r, c_ = A.dim(0), A.dim(1)
        if self.name == "svd":
            out.append(self.eq(k.int("M"), r, "M", k.loc))
            out.append(self.eq(k.int("N"), c_, "N", k.loc))
        else:
            out.append(self.eq(k.int("N"), r, "N", k.loc))
        out.append(self.eq(k.int("LDA"), r, "LDA", k.loc))
        out.append(self.holds(k, "A", A))
        if self.name == "solve":
            B = tensor_arg(self.fn.sig.args[1])
            out.append(self.eq(k.int("LDB"), B.dim(0), "LDB", k.loc))
            out.append(self.eq(k.int("NRHS") * B.dim(0), prod_([B.dim(j) for j in range(self.r)]), "the number of right-hand elements", k.loc))
            out.append(self.holds(k, "B", B))
        jobs = {"svd": (("JOBU", 1), ("JOBVT", 2)), "eig": (("JOBVR", 1), ("JOBVL", 2)), "eig_sym": (("JOBZ", 1),)}.get(self.name, ())
        for job, q in jobs:
            l = k.letter(job)
            if l is None:
                out.append((UNK, job, k.loc))
            elif self.wanted(q) and l == "N":
                out.append((REFUTED, "the caller wants %s, which %s='N' leaves out" % (("the vectors in argument %d" % (q + 1)), job), k.loc))
            else:
                out.append((PROVED, "", k.loc))
            if self.wanted(q) and self.name == "svd" and l in ("A", "S"):
                e = self.flag(3)
                if e != (l == "S"):
                    x = mn(self.F, r, c_)
                    full = r if job == "JOBU" else c_
                    if x is None or same(x[0], full, self.F) is not True:
                        out.append((REFUTED, "%s='%s' for a decomposition that is %seconomic" % (job, l, "" if e else "not "), k.loc))
        return out

    def content(self, what, addr, elty, dims, k, vals, es):
        """the tensor at addr has these extents, and its element i what the call left: vals(i) lanes"""
        size = prod_(dims)
        return [(v, "%s, %s: %s" % (what, a, d), l) for a, v, d, l in
                result_verdict(self.w, self.c, addr, elty, dims, size, [SPiece([size], vals)], self.F)]

    def arr(self, k, x, cplx, lanes2):
        """element i of array argument x after the call as the lanes of the result"""
        if cplx:
            return lambda i: (k.wrote(x, i, es=16), ld(k.left(x) + i.scale(16) + 8))
        if lanes2:
            return lambda i: (k.wrote(x, i), ZERO)
        return lambda i: (k.wrote(x, i),)

    def answer(self):
        k, A, F = self.the(), self.A, self.F
        r, c_ = A.dim(0), A.dim(1)
        out = []
        ret = self.fn.sig.sret
        z = A.cplx
        if self.name == "solve":
            B = tensor_arg(self.fn.sig.args[1])
            return self.content("the solution", ret, A.elty, [B.dim(j) for j in range(self.r)], k, self.arr(k, "B", z, False), A.es)
        if self.name == "svd":
            x = mn(F, r, c_)
            if x is None:
                raise Unknown("the smaller extent")
            m = x[0]
            out += self.content("the singular values", ret, "double", [m], k, self.arr(k, "S", False, False), 8)
            for q, what, dims, ldx in ((1, "U", lambda e: [r, m if e else r], "LDU"), (2, "VT", lambda e: [m if e else c_, c_], "LDVT")):
                if self.wanted(q):
                    d = dims(self.flag(3))
                    out.append(self.eq(k.int(ldx), d[0], ldx, k.loc))
                    out += self.content(what, self.fn.sig.args[q].v, A.elty, d, k, self.arr(k, what, z, False), A.es)
            return out
        if self.name == "eig_sym":
            out += self.content("the eigenvalues", ret, "double", [r], k, self.arr(k, "W", False, False), 8)
            if self.wanted(1):
                out += self.content("the eigenvectors", self.fn.sig.args[1].v, A.elty, [r, r], k, self.arr(k, "A", z, False), A.es)
            return out
        n = r
        if z:
            out += self.content("the eigenvalues", ret, A.elty, [n], k, self.arr(k, "W", True, True), 16)
            for q, x in ((1, "VR"), (2, "VL")):
                if self.wanted(q):
                    out.append(self.eq(k.int("LD" + x), n, "LD" + x, k.loc))
                    out += self.content("the vectors %s" % x, self.fn.sig.args[q].v, A.elty, [n, n], k, self.arr(k, x, True, True), 16)
            return out
        # real matrix: real parts first, the pairs are put in afterwards
        cp = "std::complex<double>"
        m = self.loop()
        B = Driver(self.fn, self.name, self.r, self.w, Before(self.c, m), F, A)
        out += B.content("the eigenvalues", ret, cp, [n], k, self.arr(k, "WR", False, True), 16)
        for q, x in ((1, "VR"), (2, "VL")):
            if self.wanted(q):
                out.append(self.eq(k.int("LD" + x), n, "LD" + x, k.loc))
                out += B.content("the vectors %s" % x, self.fn.sig.args[q].v, cp, [n, n], k, self.arr(k, x, False, True), 16)
        return out

    def targets(self):
        return [self.fn.sig.sret] + [self.fn.sig.args[q].v for q in (1, 2) if self.wanted(q)]

    def loop(self):
        """position of the loop that puts the pairs in"""
        k = self.the()
        outs = {list(self.w.vec(CState(self.w, self.c), ad, 16).buf.atoms())[0] for ad in self.targets()}

        def stores(effs):
            return any(e[0] == "st" and base_of(e[1])[0] in outs or e[0] == "for" and any(stores(ef) for cs, ef in e[3]) for e in effs)
        ls = [n for n, e in enumerate(self.c.eff) if n > k.n + 1 and e[0] == "for" and stores([e])]
        if len(ls) != 1:
            raise Unknown("%d loops behind the call" % len(ls))
        return ls[0]

    def pairs(self):
        k, n = self.the(), self.A.dim(0)
        pos = self.loop()
        e = self.c.eff[pos]
        rec = e[4].get("rec")
        if not rec:
            # the counter advances by one on every path
            me = P({(e[1],): 1})
            rec = dict(loc=e[4]["loc"], phis={0: (me, ZERO)}, latches=[(cs, {0: me + 1}, ef) for cs, ef in e[3]])
        ph = [(p, f, i) for p, (f, i) in rec["phis"].items()]
        if len(ph) != 1:
            raise Unknown("the loop over the eigenvalues")
        pid, old, init = ph[0]
        phi = fresh("iv", "e")      # any position the loop can be at
        rec = iterations(rec, {list(old.atoms())[0]: phi})
        out = [self.eq(init, ZERO, "the first eigenvalue looked at", rec["loc"])]
        cs = CState(self.w, self.c)
        bufs = {}
        for q, x in ((None, None), (1, "VR"), (2, "VL")):
            ad = self.fn.sig.sret if q is None else self.fn.sig.args[q].v
            if q is None or self.wanted(q):
                bufs[x] = self.w.vec(cs, ad, 16).buf
        wi = k.wrote("WI", phi)
        seen = set()
        for conds, nxt, effs in rec["latches"]:
            F = self.F.add(cge(phi)).add(cge(n - phi - 1))
            kind = None
            for c in conds:
                F = F.add(c)
                t = is_pair(c, wi)
                if isinstance(t, str):
                    out.append((REFUTED, t, rec["loc"]))
                    t = None
                    break
                kind = t if t is not None else kind
            else:
                t = True
            if t is None:
                continue
            if infeasible(F):
                continue
            if any(F.decide(c) is False for c in self.F.conds):
                continue
            if kind is None:
                raise Unknown("when the loop takes two eigenvalues for a pair: %s" % show(conds)[:160])
            seen.add(bool(kind))
            s = same(nxt[pid], phi + (2 if kind else 1), F)
            if kind == 1 and kind is not True and s is not True:
                s = same(nxt[pid], phi + 1, F)      # the second of a pair is told by its sign
            out.append((PROVED if s is True else REFUTED if s is False and not bad_atoms(nxt[pid] - phi) else UNK,
                        "after %s the search goes on at %s" % ("a pair" if kind else "a real eigenvalue", show(nxt[pid])), rec["loc"]))
            if kind:
                F = F.add(cge(n - phi - 2))
            for x, b in bufs.items():
                ps = [Piece(lo, off, [(cs_, v)], loc, sz) for lo, cs_, off, sz, v, loc in flat(effs, list(b.atoms())[0], fp=True)]
                if not kind:
                    out.append((UNK if ps else PROVED, "stores for a real eigenvalue", rec["loc"]))
                    continue
                m = ONE if x is None else n
                start = phi.scale(16) * m
                for p in ps:
                    p.off = red(F, inrange(F, p.off) - start)
                    p.alts = [(cs_, inrange(F, v)) for cs_, v in p.alts]
                if x is None:
                    re0, im0 = k.wrote("WR", phi), wi
                    sp = [SPiece([ONE], lambda i: (re0, im0)), SPiece([ONE], lambda i: (re0, -im0), start=ONE)]
                else:
                    v = lambda j, c: k.wrote(x, (phi + c) * n + j)
                    sp = [SPiece([n], lambda j: (v(j, 0), v(j, 1))), SPiece([n], lambda j: (v(j, 0), -v(j, 1)), start=n)]
                r, d, l = compare_contents(ps, sp, m.scale(2), 16, F)
                out.append((r, "%s of a pair: %s" % ("the eigenvalues" if x is None else "the vectors " + x, d), l or rec["loc"]))
        if True not in seen:
            out.append((UNK, "cases of the loop over the eigenvalues", rec["loc"]))
        return out

    def refusal(self):
        A, F = self.A, self.F
        out = []

        def must(cond, what):
            v, d = settled(F, cond, self.tens())
            out.append((v, "%s is accepted: %s" % (what, d), self.c.loc))
        if self.name != "svd":
            must(ceq(A.dim(0) - A.dim(1)), "a matrix that is not square")
        if self.name == "solve":
            B = tensor_arg(self.fn.sig.args[1])
            must(ceq(A.dim(0) - B.dim(0)), "a right-hand side of another number of rows")
            k = self.the()
            info = k.info()
            d = F.decide(ceq(info))
            if d is not True:
                i = list(info.atoms())[0]
                about = [c for c in F.conds if i in all_atoms(c)]
                ok = all(truth(rebuild_cond(c), {i: 1}) is True for c in about)
                out.append((REFUTED if ok else UNK, "a solution is returned although %s reported a singular system (INFO > 0)" % k.name, k.loc))
        return out


def inrange(F, x):
    """positions norm(i, n) that are known not to be negative"""
    for _ in range(4):
        z = {i: atom(i)[1] for i in all_atoms(x) if atom(i)[0] == "norm" and F.ge0(atom(i)[1])}
        if not z:
            break
        x = subst(x, z)
    return x


def is_pair(c, wi):
    """a condition on the imaginary part: True: of a complex pair, False: of a real eigenvalue, a text: neither, None: about something else"""
    if c[0] != "f" or len(c) != 4:
        return None
    p, a, b = c[1], c[2], c[3]
    i = list(wi.atoms())[0]
    if not isinstance(a, P) or not isinstance(b, P) or i not in (set(all_atoms(a)) | set(all_atoms(b))):
        return None
    if i in all_atoms(b):
        a, b = b, a
        p = p[0] + {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(p[1:], p[1:])
    k, s = b.const(), a.single()
    mag = s and s[0] == "fn" and "fabs" in str(s[1]) and s[-1] == wi
    if k is None or not (a == wi or mag):
        raise Unknown("when the loop takes two eigenvalues for a pair: %s" % show(c)[:160])
    q = p[1:]
    if k == 0:
        t = {"ne": True, "eq": False, "gt": 1, "le": False}.get(q)
        if t is None:
            raise Unknown("when the loop takes two eigenvalues for a pair: %s" % show(c)[:160])
        return t
    if k > 0 and q in ("gt", "ge", "lt", "le"):
        return "pairs whose imaginary part is below %g are treated as real eigenvalues" % float(k)
    raise Unknown("when the loop takes two eigenvalues for a pair: %s" % show(c)[:160])


def iterations(rec, m):
    return dict(rec, latches=[(tuple(rebuild_cond(subst(x, m)) for x in cs), {p: subst(v, m) for p, v in nx.items()}, [subst_eff(x, m) for x in ef]) for cs, nx, ef in rec["latches"]])


class Before:
    """the case as it stood before effect n"""

    def __init__(self, c, n):
        self.__dict__.update({s: getattr(c, s) for s in ("outcome", "facts", "vecs", "loc", "ret", "calls") if hasattr(c, s)})
        self.eff = c.eff[:n]


def prod_(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r
