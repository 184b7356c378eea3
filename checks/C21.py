"""Iterative eigenvalues: what is handed to ARPACK, when the matrix is applied to what, and what is returned."""
from lapack import *
from terms import Terms
import numer

UPD = "IDO BMAT N WHICH NEV TOL RESID NCV V LDV IPARAM IPNTR WORKD WORKL LWORKL".split()
ROLES = {"dsaupd_": UPD + ["INFO"], "znaupd_": UPD + ["RWORK", "INFO"],
         "dseupd_": "RVEC HOWMNY SELECT D Z LDZ SIGMA".split() + UPD[1:] + ["INFO"],
         "zneupd_": "RVEC HOWMNY SELECT D Z LDZ SIGMA WORKEV".split() + UPD[1:] + ["RWORK", "INFO"]}
# bytes of the object the routines may change
WRITES = {"IDO": 4, "TOL": 8, "IPARAM": 44, "IPNTR": 56, "INFO": 4}
NAMES = {"double": ["LM", "SM", "LA", "SA", None, None], "z": ["LM", "SM", "LR", "SR", "LI", "SI"]}
KINDS = ["of largest magnitude", "of smallest magnitude", "with largest real part", "with smallest real part", "with largest imaginary part", "with smallest imaginary part"]
RUN, DONE = 2, 3


def run(ctx):
    ctx.rule("room", "every array and workspace handed to ARPACK is as long as its documentation asks, for the lengths handed over with it, and the basis has more than the wanted number of vectors and at most n")
    ctx.rule("setup", "the first call finds the standard problem: start flag, identity metric, exact shifts, one vector at a time, mode 1, machine precision")
    ctx.rule("selector", "each kind of eigenvalues is asked for under its code, kinds the routine does not know and unknown numbers are refused")
    ctx.rule("status", "an iteration is reported as running exactly when a product is asked for, and as finished only when ARPACK reports success")
    ctx.rule("vectors", "products are read from and stored to the places ARPACK names, with n elements")
    ctx.rule("answer", "results are extracted with the arguments of the iteration, into arrays that are long enough; the first wanted values are returned, and nothing when ARPACK reports a failure")
    ctx.rule("order", "the sorting of complete decompositions puts the wanted kind first")
    ctx.rule("loop", "the matrix is applied to the vector asked for, the result stored where it is wanted, and nothing else, until the iteration ends")
    ctx.rule("result", "what is returned is the extracted result of a finished iteration, or zeros and a flag, or nothing")
    ctx.rule("refusal", "matrices that are not square, and requests for no or more than n eigenvalues, never yield a result")
    ctx.rule("small", "matrices of up to four rows are decomposed completely, and the wanted eigenvalues returned with their right eigenvectors")
    n = 0
    jobs = []
    for z, cl, src in (("double", "RArpack", "src/arpack/arpack_d.cc"), ("z", "CArpack", "src/arpack/arpack_z.cc")):
        fns = {f.dem[f.dem.find(cl + "::") + len(cl) + 2:]: f for f in ctx.get(r"^linalg::%s::" % cl, "vec", [src])}
        jobs.append(lambda z=z, cl=cl, fns=fns: klass(ctx, z, cl, fns))
        n += len(fns)
    for z, name, src in DRIVERS:
        for fn in ctx.get(r"^linalg::%s\(" % name, "vec", [src]):
            jobs.append(lambda z=z, name=name, fn=fn: Driver(ctx, z, name, fn).run())
            n += 1
    for z, src in SPARSE:
        for fn in ctx.get(r"^linalg::eigs\(", "vec", [src]):
            jobs.append(lambda z=z, fn=fn: sparse(ctx, z, fn))
            n += 1
    ctx.par(jobs)
    if n < 26:
        raise AnalysisError("only %d member functions found" % n)


def pick(fns, name, arg=""):
    for k, f in fns.items():
        if k.split("(")[0] == name and arg in k:
            return f
    return None


def const_str(w, v):
    """the string a pointer value points to"""
    a = v.single() if isinstance(v, P) else None
    if a and a[0] == "g":
        e = w.unit.globals.get(a[1])
        if e and len(e) > 4 and e[4][0] == "str":
            return e[4][1]
    return None


def table(w, v, leaf):
    """the pointer kept in a constant table of the program"""
    a = v.single() if isinstance(v, P) else None
    if a and a[0] == "ldp":
        b, o = base_of(a[2] if len(a) > 2 else a[1])
        if b is not None and atom(b)[0] == "g":
            e = w.unit.globals.get(atom(b)[1])
            o = value(o, leaf)
            if e and len(e) > 4 and e[4][0] == "cagg" and o is not None and o % 8 == 0:
                k = int(o) // 8
                if not 0 <= k < len(e[4]) - 1:
                    return "beyond the table"
                t = e[4][1 + k]
                return const_str(w, P.a("g", t[1])) if t[0] == "g" else None
    return const_str(w, v)


class Upd:
    """a call of an ARPACK routine on a path of a member function"""

    def __init__(self, w, c, n, e, this):
        self.w, self.c, self.n, self.loc, self.rid, self.name = w, c, n, e[3], e[5], e[1]
        self.r = {x: k for k, x in enumerate(ROLES[e[1]])}
        self.a = e[2]
        self.this = this
        if len(self.a) < len(self.r):
            raise Unknown("arguments of " + self.name)

    def val(self, x, sz=4, ty="i32"):
        return untrunc(self.w.lookup(CState(self.w, self.c), self.a[self.r[x]], sz, ty, self.n))

    def place(self, x):
        """offset in the object for arguments that are parts of it"""
        d = self.a[self.r[x]] - self.this
        return d.const()

    def role(self, x):
        """an identification of the argument that is independent of the call"""
        if x in ("IDO", "TOL", "IPARAM", "IPNTR", "INFO"):
            p = self.place(x)
            if p is not None:
                return ("in", p)
            if x == "TOL":
                return ("val", self.val(x, 8, "double"))
            raise Unknown(x)
        if x in ("RESID", "V", "WORKD", "WORKL", "RWORK", "WHICH"):
            return ("ptr", self.a[self.r[x]])
        if x == "BMAT":
            return ("val", self.val(x, 1, "i8"))
        return ("val", self.val(x))


def arpack_calls(w, c, this):
    for n, e in enumerate(c.eff):
        if e[0] == "call" and isinstance(e[1], str) and e[1] in ROLES:
            yield Upd(w, c, n, e, this)


def field(v, this):
    """offset of the member a value was read from"""
    a = v.single() if isinstance(v, P) else None
    if a and a[0] in ("ld", "ldp", "ldv"):
        return (a[2] - this).const()
    return None


def unhavoc(w, c, u):
    """members the routine cannot have changed keep their values: substitution for what is read behind the call"""
    spans = []
    for x, l in WRITES.items():
        p = u.place(x) if x in u.r else None
        if p is not None:
            spans.append((p, p + l))
    m = {}
    for i in deep_atoms([c.eff, list(c.facts.conds), c.ret]):
        a = atom(i)
        if a[0] == "ldv" and a[3] == u.rid:
            o = (a[2] - u.this).const()
            if o is not None and not any(s <= o < t for s, t in spans):
                m[i] = P.a("ldp", "ptr", a[2]) if a[1] == "ptr" else ld(a[2], a[1])
    return m


def klass(ctx, z, cl, fns):
    es = 8 if z == "double" else 16
    up = pick(fns, "update")
    w, cases, err = ctx.summary(up)
    this = up.sig.this
    if cases is None:
        return ctx.unk(up, "status", err)
    calls = []
    bad, unk, seen = [], None, set()
    for c in cases:
        us = list(arpack_calls(w, c, this))
        calls += us
        if c.outcome != "ret":
            continue
        status_rule(w, c, us, this, bad, seen)
    want = {("running", 1), ("running", -1), ("finished", 0)}
    if bad:
        ctx.bad(up, "status", bad[0][0], bad[0][1])
    elif not want <= seen:
        ctx.bad(up, "status", "never reports %s" % sorted(want - seen)[0][0]) if not any(x[0] == "?" for x in seen) else ctx.unk(up, "status", "not all paths were resolved")
    else:
        ctx.ok(up, "status", "%d paths" % len(cases))
    if not calls:
        return ctx.unk(up, "setup", "no call of the iteration was found")
    u = calls[0]
    try:
        roles = {x: u.role(x) for x in u.r}
        for v in calls[1:]:
            if {x: v.role(x) for x in v.r} != roles:
                return ctx.unk(up, "setup", "two different calls of the iteration")
    except Unknown as e:
        return ctx.unk(up, "setup", str(e))
    ctor(ctx, z, es, cl, fns, u, roles, this, workev(ctx, fns))
    vectors(ctx, es, fns, u, roles, this)
    data(ctx, z, es, fns, roles, this, cl)
    settings(ctx, es, fns, u, roles, this)
    order(ctx, fns)


def can(F, *conds):
    """the facts allow the conditions"""
    for x in conds:
        if F.decide(x) is False:
            return False
        F = F.add(x)
    return not infeasible(F) and not any(F.decide(x) is False for x in F.conds)


def signed(F):
    """comparisons of numbers without sign, where the larger one is known not to be negative"""
    for c in F.conds:
        a = c[1].single() if c[0] in ("bool", "nbool") and isinstance(c[1], P) else None
        if a and a[0] == "ucmp":
            op, x, y = a[1:4]
            if c[0] == "nbool":
                op = {"ugt": "ule", "uge": "ult", "ult": "uge", "ule": "ugt"}.get(op)
            if op in ("ugt", "uge"):
                x, y = y, x
            if op and F.decide(cge(y)) is True:
                F = F.add(cge(x)).add(cge(y - x - (1 if op in ("ugt", "ult") else 0)))
    return F


def known(F, x, k):
    """is x equal to k on the path: True, False, None"""
    return F.decide(ceq(x - k))


def status_rule(w, c, us, this, bad, seen):
    last = None
    for e in c.eff:
        if e[0] == "st" and e[1] == this and e[2] == 4:
            last = e[3]
    r = c.ret.const() if isinstance(c.ret, P) else None
    if r is None:
        seen.add(("?", None))
        return
    if last is not None and (last - r).const() not in (0, None):
        bad.append(("returns %d and remembers another status" % r, c.loc))
    if not us:
        if r == RUN or r == DONE:
            bad.append(("reports %s without having called ARPACK" % ("running" if r == RUN else "finished"), c.loc))
        return
    if last is None:
        bad.append(("the status is not remembered", c.loc))
        return
    u = us[-1]
    ido, info = P.a("ldv", "i32", u.a[u.r["IDO"]], u.rid), P.a("ldv", "i32", u.a[u.r["INFO"]], u.rid)
    F = c.facts
    if r == RUN:
        for k in (1, -1):
            if known(F, ido, k) is not False:
                seen.add(("running", k))
        for k in (2, 3, 4, 99, 0):
            if can(F, ceq(ido - k)):
                bad.append(("reports that it is running when ARPACK returned IDO = %d" % k, c.loc))
                return
    elif r == DONE:
        for k in (1, -1, 2):
            if can(F, ceq(ido - k)):
                bad.append(("reports success while ARPACK asks for more (IDO = %d)" % k, c.loc))
                return
        for k in (1, 2, 3, -9, -1, -9999):
            if can(F, ceq(info - k)):
                bad.append(("reports success although ARPACK returned INFO = %d" % k, c.loc))
                return
        if can(F, ceq(info)):
            seen.add(("finished", 0))
    else:
        for k in (1, -1):
            if can(F, ceq(ido - k)):
                bad.append(("reports the end of the iteration when ARPACK asks for a product (IDO = %d)" % k, c.loc))
                return
        if can(F, ceq(ido - 99), ceq(info)):
            bad.append(("does not report success when ARPACK is done", c.loc))


def num_cond(c, leaf):
    """truth of a condition for numbers, None when it speaks of something else"""
    if c[0] in ("bool", "nbool") and isinstance(c[1], P):
        a = c[1].single()
        if a and a[0] == "ucmp":
            x, y = value(untrunc(a[2]), leaf), value(untrunc(a[3]), leaf)
            if x is None or y is None:
                return None
            t = {"ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y}.get(a[1])
            return None if t is None else t == (c[0] == "bool")
        return None
    if c[0] in ("and", "or"):
        ts = [num_cond(x, leaf) for x in c[1:]]
        stop = c[0] == "or"
        return stop if stop in ts else None if None in ts else not stop
    if c[0] in ("ge", "eq", "ne"):
        v = value(untrunc(c[1]), leaf)
        return None if v is None else v >= 0 if c[0] == "ge" else (v == 0) == (c[0] == "eq")
    return None


SIZES = [(5, 1), (6, 5), (7, 3), (19, 2), (20, 19), (21, 10), (21, 11), (40, 3), (64, 31), (100, 60), (100, 99), (5, 5), (20, 20), (30, 30), (5, 6), (30, 31), (5, 0), (30, 0)]


def possible(conds, leaf):
    return not any(num_cond(c, leaf) is False for c in conds)


def workev(ctx, fns):
    """the member handed over as WORKEV when results are extracted"""
    fn = pick(fns, "get_data")
    w, cases, err = ctx.summary(fn) if fn else (None, None, None)
    for c in cases or ():
        for v in arpack_calls(w, c, fn.sig.this):
            if "WORKEV" in v.r:
                return field(v.a[v.r["WORKEV"]], fn.sig.this)
    return None


def ctor(ctx, z, es, cl, fns, u, roles, this0, wv):
    fn = pick(fns, cl)
    w, cases, err = ctx.summary(fn)
    if cases is None:
        for x in ("room", "setup", "selector"):
            ctx.unk(fn, x, err)
        return
    this = fn.sig.this
    n, t, nev = [a.v for a in fn.sig.args[:3]]
    idn, idt, idv = [list(x.atoms())[0] for x in (n, t, nev)]
    res = {"room": [], "setup": [], "selector": []}
    got = {}
    rets = [c for c in cases if c.outcome == "ret"]
    for c in rets:
        try:
            ctor_case(w, c, z, es, u, roles, this0, this, (idn, idt, idv), res, got, wv)
        except (Unknown, Lost) as e:
            for x in res:
                res[x].append((UNK, str(e), c.loc))
    # selectors
    for k in list(range(6)) + [-1, 6]:
        want = NAMES[z][k] if 0 <= k < 6 else None
        for s, loc in got.get(k, []):
            if want is None:
                res["selector"].append((REFUTED, "the number %d is accepted and leads to %s" % (k, s) if not 0 <= k < 6 else "eigenvalues %s are asked for as %s, which is no choice for real matrices" % (KINDS[k], s), loc))
            elif s is None:
                res["selector"].append((UNK, "the code for eigenvalues %s" % KINDS[k], loc))
            elif s[:2] != want:
                res["selector"].append((REFUTED, "eigenvalues %s are asked for as %s" % (KINDS[k], s), loc))
            else:
                res["selector"].append((PROVED, "", loc))
        if want and not got.get(k):
            res["selector"].append((REFUTED, "eigenvalues %s are refused" % KINDS[k], None))
    if not rets:
        return ctx.bad(fn, "room", "no problem is accepted")
    for x, v in res.items():
        b = max(v, key=lambda o: {REFUTED: 2, UNK: 1, PROVED: 0}[o[0]], default=(PROVED, "", None))
        ctx.verdict(fn, x, b[0], b[1] if b[0] != PROVED else "%d paths" % len(rets), b[2])


def ctor_case(w, c, z, es, u, roles, this0, this, ids, res, got, wv):
    idn, idt, idv = ids
    end = len(c.eff)
    cs = CState(w, c)

    def member(o, sz, ty):
        return untrunc(w.lookup(cs, this + o, sz, ty, end))

    def rebase(v):
        return subst(v, {list(this0.atoms())[0]: this})

    def get(x, sz=4, ty="i32"):
        kind, v = roles[x]
        if kind == "in":
            return member(v, sz, ty)
        v = rebase(v)
        o = field(v, this)
        if o is None:
            return v
        return member(o, sz, ty)
    conds = [strip(x) for x in c.facts.conds]
    for k in list(range(6)) + [-1, 6]:
        if not possible(conds, {idt: k}):
            continue
        if not any(possible(conds, {idt: k, idn: a, idv: b}) for a, b in SIZES):
            continue
        got.setdefault(k, []).append((table(w, get("WHICH", 8, "ptr"), {idt: k}), c.loc))
    pts = [(a, b) for a, b in SIZES if possible(conds, {idn: a, idv: b})]
    # lengths
    N, NEV, NCV, LDV, LW = get("N"), get("NEV"), get("NCV"), get("LDV"), get("LWORKL")

    def cap(x):
        return capacity(w, c, get(x, 8, "ptr"), end)
    goals = [("the number of rows", N - P({(idn,): 1})), ("the number of rows", P({(idn,): 1}) - N),
             ("the number of eigenvalues", NEV - P({(idv,): 1})), ("the number of eigenvalues", P({(idv,): 1}) - NEV),
             ("the number of eigenvalues", NEV - 1),
             ("the number of basis vectors, which has to exceed the number of eigenvalues", NCV - NEV - 1),
             ("the number of basis vectors, which cannot exceed the number of rows", N - NCV),
             ("the leading dimension of the basis", LDV - N),
             ("LWORKL", LW - (NCV * NCV + NCV.scale(8) if z == "double" else (NCV * NCV).scale(3) + NCV.scale(5)))]
    for x, need in (("RESID", N.scale(es)), ("V", (LDV * NCV).scale(es)), ("WORKD", N.scale(3 * es)), ("WORKL", LW.scale(es))) + ((("RWORK", NCV.scale(8)),) if z != "double" else ()):
        try:
            goals.append(("the room behind %s" % x, cap(x) - need))
        except Unknown as e:
            res["room"].append((UNK, str(e), c.loc))
    if wv is not None:
        try:
            goals.append(("the room behind WORKEV", capacity(w, c, member(wv, 8, "ptr"), end) - NCV.scale(2 * es)))
        except Unknown as e:
            res["room"].append((UNK, str(e), c.loc))
    for what, g in goals:
        g = untrunc(g)
        F = fuller(c.facts)
        if F.decide(cge(g)) is True or g == P({(idv,): 1}) - 1 and F.decide(("ne", P({(idv,): 1}))) is True:
            continue
        hit = None
        for a, b in pts:
            v = value(g, {idn: a, idv: b})
            if v is not None and v < 0:
                hit = (a, b, v)
                break
        if hit:
            res["room"].append((REFUTED, "%s is too small by %d for %d eigenvalues of a matrix with %d rows" % (what, -hit[2], hit[1], hit[0]) if "number" not in what
                                else "%s is wrong for %d eigenvalues of a matrix with %d rows" % (what, hit[1], hit[0]), c.loc))
        elif strictly(F, g):
            continue
        else:
            res["room"].append((UNK, "%s: %s" % (what, show(g)[:80]), c.loc))
    res["room"].append((PROVED, "", None))
    # the problem
    ip = roles["IPARAM"][1]
    for what, v, ok in (("IDO", get("IDO"), lambda v: v == 0), ("BMAT", get("BMAT", 1, "i8"), lambda v: v == 73), ("INFO", get("INFO"), lambda v: v == 0),
                        ("the choice of shifts", member(ip, 4, "i32"), lambda v: v == 1), ("the block size", member(ip + 12, 4, "i32"), lambda v: v == 1),
                        ("the mode", member(ip + 24, 4, "i32"), lambda v: v == 1), ("the tolerance", get("TOL", 8, "double"), lambda v: v <= 2.3e-16),
                        ("the status", member(0, 4, "i32"), lambda v: v == 1),
                        ("the number of iterations", member(ip + 8, 4, "i32"), lambda v: v >= 1)):
        k = v.const() if isinstance(v, P) else None
        if k is None:
            if what == "the number of iterations":
                continue
            res["setup"].append((UNK, "%s: %s" % (what, show(v)[:60]), c.loc))
        elif not ok(k):
            res["setup"].append((REFUTED, "%s is %g before the first call" % (what, k), c.loc))
        else:
            res["setup"].append((PROVED, "", None))


def strictly(F, g):
    """products of lengths: g >= 0 as a sum of products of quantities known to be positive"""
    for i in g.atoms():
        if F.decide(cge(P({(i,): 1}))) is not True and F.decide(cge(P({(i,): 1}) - 1)) is not True:
            return False
    return all(k >= 0 for k in g.t.values())


def vectors(ctx, es, fns, u, roles, this0):
    ipn = roles["IPNTR"][1]
    fw = field(roles["WORKD"][1], this0)
    fN = field(roles["N"][1], this0)
    if fw is None or fN is None or roles["IPNTR"][0] != "in":
        return ctx.unk(pick(fns, "update"), "vectors", "the workspace is no member")
    for name, k in (("get_x_vector", 0), ("get_y_vector", 1), ("get_x", 0), ("get_y", 1), ("set_y", 1)):
        fn = pick(fns, name)
        if fn is None:
            continue
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, "vectors", err)
            continue
        this = fn.sig.this
        where = P.a("ldp", "ptr", this + fw) + (ld(this + ipn + 4 * k, "i32") - 1).scale(es)
        nn = ld(this + fN, "i32")
        bad = unk = None
        rets = 0
        for c in cases:
            if c.outcome != "ret":
                st = ld(this, "i32")
                if can(c.facts, ceq(st - RUN)) and not (name == "set_y"):
                    bad = ("stops although a product was asked for", c.loc)
                continue
            rets += 1
            try:
                if name.endswith("_vector"):
                    got, cnt = c.ret, nn
                    d = same_addr(got, where)
                else:
                    if name == "set_y":
                        y = tensor_arg(fn.sig.args[0])
                        if can(c.facts, ceq(nn - 6), ceq(y.size - 5)):
                            bad = ("copies more elements than there are", c.loc)
                        cp = [e for e in c.eff if e[0] in ("cpy", "map")]
                        if len(cp) == 1 and cp[0][0] == "cpy":
                            e = cp[0]
                            d = same_addr(e[1], where) and same_addr(e[2], y.buf) and (c.facts.decide(ceq(untrunc(e[3]) - nn.scale(es))) is True or same_addr(untrunc(e[3]), nn.scale(es)))
                        else:
                            d = None
                    else:
                        vc = [e for e in c.eff if e[0] in ("vcopy", "cpy")]
                        if len(vc) == 1 and vc[0][0] == "vcopy" and vc[0][6] == es:
                            d = same_addr(vc[0][2], where) and same_addr(untrunc(vc[0][3]), nn)
                        else:
                            d = None
                if d is None:
                    unk = ("%s" % show(c.ret)[:80], c.loc)
                elif d is False:
                    bad = ("does not lead to the %s elements ARPACK named in IPNTR(%d)" % ("n", k + 1), c.loc)
            except (Unknown, Lost) as e:
                unk = (str(e), c.loc)
        if bad:
            ctx.bad(fn, "vectors", bad[0], bad[1])
        elif unk or not rets:
            ctx.unk(fn, "vectors", unk[0] if unk else "no path returns")
        else:
            ctx.ok(fn, "vectors", "%d paths" % rets)


def same_addr(a, b):
    if not isinstance(a, P):
        return None
    if a == b:
        return True
    if bad_atoms(a):
        return None
    return False


def initial(ctx, fns, cl):
    """constants the constructor leaves in the members"""
    fn = pick(fns, cl)
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return lambda *a: None

    def get(o, sz, ty):
        v = {w.lookup(CState(w, c), fn.sig.this + o, sz, ty, len(c.eff)).const() for c in cases if c.outcome == "ret"}
        return v.pop() if len(v) == 1 else None
    return get


def data(ctx, z, es, fns, roles, this0, cl):
    start = initial(ctx, fns, cl)
    for fn in [f for k, f in fns.items() if k.startswith("get_data(")]:
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, "answer", err)
            continue
        out, rets = [], 0
        for c in cases:
            if c.outcome != "ret":
                continue
            rets += 1
            try:
                out += answer_case(w, c, z, es, fn, roles, this0, start)
            except (Unknown, Lost) as e:
                out.append((UNK, str(e), c.loc))
        report(ctx, fn, "answer", out, rets)


def report(ctx, fn, rule, out, rets):
    if not rets:
        return ctx.bad(fn, rule, "never returns")
    b = max(out, key=lambda o: {REFUTED: 2, UNK: 1, PROVED: 0}[o[0]], default=(PROVED, "", None))
    ctx.verdict(fn, rule, b[0], b[1] if b[0] != PROVED else "%d paths" % rets, b[2])


def answer_case(w, c, z, es, fn, roles, this0, start):
    this = fn.sig.this
    out = []
    loc = c.loc
    us = list(arpack_calls(w, c, this))
    if len(us) != 1 or not us[0].name.endswith("eupd_"):
        return [(REFUTED if not us else UNK, "results without extraction" if not us else "several extractions", loc)]
    u = us[0]
    loc = u.loc
    F = c.facts

    def rebase(v):
        return subst(v, {list(this0.atoms())[0]: this})

    def settle(v):
        o = field(v, this)
        if o is not None:
            k = start(o, 1, "i8")
            if k is not None:
                return P.c(k)
        return v
    # the arguments of the iteration
    for x in u.r:
        if x not in roles or x == "INFO":
            continue
        kind, want = roles[x]
        try:
            if kind == "in":
                if u.place(x) == want:
                    continue
                got = u.val(x, 8, "double") if x == "TOL" else None
                if got is None:
                    out.append((REFUTED if u.place(x) is not None else UNK, "%s is not that of the iteration" % x, loc))
                    continue
                if field(got, this) != want:
                    out.append((REFUTED if field(got, this) is not None or got.const() is not None else UNK, "the tolerance is not that of the iteration", loc))
                continue
            want = rebase(want)
            got = u.a[u.r[x]] if kind == "ptr" else u.val(x, 1, "i8") if x == "BMAT" else u.val(x)
            if got == want or untrunc(got) == untrunc(want):
                continue
            if x == "LDV" and F.decide(cge(got - u.val("N"))) is True:
                continue
            out.append((UNK if bad_atoms(got) else REFUTED, "%s is %s, not that of the iteration" % (x, show(got)[:60]), loc))
        except Unknown as e:
            out.append((UNK, "%s: %s" % (x, e), loc))
    N, NEV, NCV = u.val("N"), u.val("NEV"), u.val("NCV")
    pts = [dict(zip([list(x.atoms())[0] for x in (N, NEV, NCV)], p)) for p in ((20, 3, 7), (7, 6, 7), (50, 1, 2))] if all(x.single() for x in (N, NEV, NCV)) else []
    how = settle(u.val("HOWMNY", 1, "i8")).const()
    out.append((UNK if how is None else PROVED if chr(int(how)) == "A" else REFUTED, "HOWMNY is not A, the eigenvectors of all wanted values", loc))
    rvec = u.val("RVEC").const()
    zp = u.a[u.r["Z"]]
    vec = fn.sig.args[0].v if fn.sig.args else None
    wanted = F.decide(("ne", vec)) if vec is not None else None
    whole = zp.single() and zp.single()[0] == "buf"
    own = vec is not None and (zp == vec or whole and zp.single()[1] == vec)
    if rvec is None:
        out.append((UNK, "RVEC", loc))
    elif rvec == 0 and wanted is True:
        # an array without elements is no array
        t = [x for x in F.conds if x[0] == "eq" and isinstance(x[1], P) and x[1].single() and x[1].single()[0] == "buf" and x[1].single()[1] == vec]
        if not t:
            out.append((REFUTED, "eigenvectors are wanted and not asked for", loc))
    elif rvec:
        if wanted is False:
            out.append((UNK, "eigenvectors without a place", loc))
        if not own:
            out.append((UNK if bad_atoms(zp) else REFUTED, "the eigenvectors go to %s" % show(zp)[:60], loc))
        out.append(least(F, u.val("LDZ") - N, "the leading dimension of the eigenvectors", loc, pts))
        if whole:
            out.append(least(F, untrunc(capacity(w, c, zp, u.n)) - (N * NEV).scale(es), "the room for the eigenvectors", loc, pts))
            r = dims_verdict(CState(w, c), vec, [N, NEV], F)
            out.append((r[0], "the eigenvectors: " + r[1], loc))
    rooms = [("D", (NEV + (1 if z != "double" else 0)).scale(es)), ("SELECT", NCV.scale(4))] + ([("WORKEV", NCV.scale(32))] if z != "double" else [])
    for x, need in rooms:
        p = u.a[u.r[x]]
        try:
            g = untrunc(capacity(w, c, p, u.n)) - need
        except Unknown as e:
            o = field(p, this)
            out.append((UNK, "%s: %s" % (x, e), loc)) if o is None else None
            if o is not None:
                out += kept(w, start, o, x, loc)
            continue
        out.append(least(F, g, "the room behind " + x, loc, pts))
    # failures
    info = P.a("ldv", "i32", u.a[u.r["INFO"]], u.rid)
    for k in (1, 3, -1, -9, -14, -99):
        if can(F, ceq(info - k)):
            out.append((REFUTED, "returns although ARPACK reported INFO = %d" % k, loc))
            break
    # what is returned
    m = unhavoc(w, c, u)
    T = Terms(w, c)
    t = T.tensor(fn.sig.sret)
    if t[0] == "part" and t[1][0] == "built" and t[1][1] == u.a[u.r["D"]] and len(t[2]) == 1:
        r = t[2][0]
        if r[0] == "step":
            a, b, s = [untrunc(subst(x, m)) for x in r[1:]]
            d = (a, b - NEV + 1, s - 1)
            if all(x.const() == 0 for x in d):
                out.append((PROVED, "", loc))
            elif any(bad_atoms(x) for x in (a, b, s)) or any(x.const() is None for x in d):
                out.append((UNK, "returned range", loc))
            else:
                out.append((REFUTED, "returns the eigenvalues %s to %s by %s" % (show(a), show(b), show(s)), loc))
        else:
            out.append((UNK, "returned range", loc))
    elif t[0] == "built":
        n = untrunc(subst(w.vec(CState(w, c), fn.sig.sret).size, m))
        k = (n - NEV).const()
        if k is not None and k != 0 and t[1] == u.a[u.r["D"]]:
            out.append((REFUTED, "returns %s values" % show(n), loc))
        else:
            out.append((PROVED if k == 0 and t[1] == u.a[u.r["D"]] else UNK, "returned values", loc))
    else:
        out.append((UNK, "returned values: %s" % str(t[1])[:60], loc))
    for e in c.eff[u.n + 2:]:
        if e[0] in ("st", "cpy", "set", "for"):
            from walk import touched
            b = {base_of(e[1])[0]} if e[0] != "for" else set(touched(e))
            if b & {base_of(u.a[u.r["D"]])[0], base_of(zp)[0]} or None in b:
                out.append((UNK, "the results are changed afterwards", loc))
    return out


def kept(w, start, o, x, loc):
    return [] if x == "WORKEV" else [(UNK, "%s is a member" % x, loc)]


def least(F, g, what, loc, pts=()):
    """lengths and numbers of rows are positive"""
    g = untrunc(g)
    if F.decide(cge(g)) is True:
        return (PROVED, "", loc)
    if bad_atoms(g):
        return (UNK, what + ": " + show(g)[:60], loc)
    k = g.const()
    if k is not None:
        return (REFUTED if k < 0 else PROVED, "%s is too small by %d" % (what, -k), loc)
    if all(v > 0 for v in g.t.values()):
        return (PROVED, "", loc)
    if all(v < 0 for v in g.t.values()) and not any(F.decide(ceq(P({m: 1}))) for m in g.t):
        return (REFUTED, "%s is too small by %s" % (what, show(-g)[:60]), loc)
    for p in pts:
        v = value(g, p)
        if v is not None and v < 0:
            return (REFUTED, "%s is too small by %s" % (what, show(-g)[:60]), loc)
    return (UNK, what + ": " + show(g)[:60], loc)


def settings(ctx, es, fns, u, roles, this0):
    ip = roles["IPARAM"][1]
    fr, fN = field(roles["RESID"][1], this0), field(roles["N"][1], this0)
    info = roles["INFO"][1] if roles["INFO"][0] == "in" else None
    tol = roles["TOL"][1] if roles["TOL"][0] == "in" else field(roles["TOL"][1], this0)
    for name in ("set_start_vector", "set_tolerance", "set_maxiter", "set_random_start_vector"):
        fn = pick(fns, name)
        if fn is None:
            continue
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, "setup", err)
            continue
        this = fn.sig.this
        out, rets = [], 0
        for c in cases:
            if c.outcome != "ret":
                if can(c.facts, ceq(ld(this, "i32") - 1)) and can(c.facts, ceq(ld(this, "i32") - 0)):
                    out.append((REFUTED, "refused before the iteration has started", c.loc))
                continue
            rets += 1
            if not can(c.facts, ceq(ld(this + fN, "i32") - 5)):
                continue
            get = lambda o, sz, ty: untrunc(w.lookup(CState(w, c), this + o, sz, ty, len(c.eff)))
            try:
                if name == "set_start_vector":
                    src = fn.sig.args[0].v
                    cp = [e for e in c.eff if e[0] == "cpy"]
                    want = P.a("ldp", "ptr", this + fr)
                    n = ld(this + fN, "i32")
                    k = get(info, 4, "i32")
                    out.append((PROVED if k.const() is not None and k.const() != 0 else REFUTED if k.const() == 0 or field(k, this) is not None else UNK, "the start vector is not announced", c.loc))
                    if len(cp) == 1:
                        e = cp[0]
                        r = [same_addr(e[1], want), same_addr(e[2], src), same_addr(untrunc(e[3]), n.scale(es))]
                        out.append((PROVED if r == [True] * 3 else UNK if None in r else REFUTED, "the start vector is not copied to the residual", c.loc))
                    elif not any(e[0] in ("st", "for", "call", "set", "map", "vcopy") for e in c.eff if not (e[0] == "st" and base_of(e[1])[0] == base_of(this)[0])):
                        out.append((REFUTED, "the start vector is not copied to the residual", c.loc))
                    else:
                        out.append((UNK, "copy", c.loc))
                elif name == "set_tolerance":
                    out.append(same_member(get(tol, 8, "double"), fn.sig.args[0].v, "the tolerance", c.loc))
                elif name == "set_maxiter":
                    out.append(same_member(get(ip + 8, 4, "i32"), untrunc(fn.sig.args[0].v), "the number of iterations", c.loc))
                else:
                    out.append(same_member(get(info, 4, "i32"), ZERO, "the announcement of a start vector", c.loc))
            except Unknown as e:
                out.append((UNK, str(e), c.loc))
        report(ctx, fn, "setup", out, rets)


def same_member(got, want, what, loc):
    r = same_addr(got, want)
    return (PROVED if r else UNK if r is None else REFUTED, "%s is %s, not %s" % (what, show(got)[:60], show(want)[:40]), loc)


def order(ctx, fns):
    fn = pick(fns, "sort_values")
    if fn is None:
        return
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, "order", err)
    src, kind = tensor_arg(fn.sig.args[0]), fn.sig.args[1].v
    out, seen = [], set()
    KEYS = [("abs", -1), ("abs", 1), ("re", -1), ("re", 1), ("im", -1), ("im", 1)]
    for c in cases:
        if c.outcome != "ret":
            continue
        ks = [k for k in list(range(6)) + [-1, 6] if can(c.facts, ceq(kind - k))]
        for k in ks:
            if not 0 <= k < 6:
                out.append((REFUTED, "the number %d, which is no kind of eigenvalues, yields an order" % k, c.loc))
            seen.add(k)
        try:
            r = key_of(w, c, fn, src)
        except (Unknown, Lost) as e:
            out.append((UNK, str(e), c.loc))
            continue
        for k in ks:
            if 0 <= k < 6 and callable(r):
                m = misplaced(r, KEYS[k])
                out.append((REFUTED, "eigenvalues %s: %s does not come before %s" % (KINDS[k], m[0], m[1]), c.loc) if m else (UNK, "the order", c.loc))
            elif 0 <= k < 6 and r != KEYS[k]:
                out.append((REFUTED, "eigenvalues %s are sorted by %s%s" % (KINDS[k], "decreasing " if r[1] < 0 else "increasing ", {"abs": "magnitude", "re": "real part", "im": "imaginary part"}[r[0]]), c.loc))
    for k in range(6):
        if k not in seen:
            out.append((REFUTED, "eigenvalues %s are refused" % KINDS[k], None))
    report(ctx, fn, "order", out, len(seen))


def key_of(w, c, fn, src):
    es = [(n, e) for n, e in enumerate(c.eff) if e[0] == "call" and isinstance(e[1], str) and e[1].startswith("tensor::sort_indices(")]
    if len(es) != 1 or es[0][1][2][0] != fn.sig.sret:
        raise Unknown("no single sort")
    n, e = es[0]
    rev = e[2][2]
    rev = rev.const() if isinstance(rev, P) else 1 if rev == ("T",) else 0 if rev == ("F",) else None
    if rev is None:
        raise Unknown("direction")
    cs = CState(w, c).upto(n)
    v = w.vec(cs, e[2][1])
    ps = contents(cs, v.buf, v.size, 8)
    if len(ps) != 1 or len(ps[0].alts) != 1 or len(ps[0].loops) != 1 or ps[0].alts[0][0]:
        raise Unknown("keys in pieces")
    p = ps[0]
    kid = p.loops[0][0]
    i = P({(kid,): 1})
    if p.off != i.scale(8):
        raise Unknown("keys in another order")
    re_, im = ld(src.buf + i.scale(16)), ld(src.buf + i.scale(16) + 8)
    val = p.alts[0][1]
    for name, x in (("re", re_), ("im", im), ("abs", P.a("fn", "cabs", re_, im))):
        for s in (1, -1):
            if val == x.scale(s):
                return name, s * (-1 if rev else 1)
    if all_atoms(val) - all_atoms(re_) - all_atoms(im) - {i for i in all_atoms(val) if atom(i)[0] in numer.NUMF}:
        raise Unknown("key " + show(val)[:80])
    a, b = list(re_.atoms())[0], list(im.atoms())[0]
    return lambda zs: [numer.ev(val, 0, {a: z.real, b: z.imag}) * (-1 if rev else 1) for z in zs]


POINTS = [complex(a, b) for a in (-3, -1.25, 0.5, 2) for b in (-2.75, -0.75, 0.25, 3.5)]


def misplaced(f, key):
    """two numbers the computed keys put in the wrong order"""
    g = {"abs": abs, "re": lambda z: z.real, "im": lambda z: z.imag}[key[0]]
    try:
        ks = f(POINTS)
    except (numer.No, KeyError, TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None
    for x, k in zip(POINTS, ks):
        for y, l in zip(POINTS, ks):
            if (g(x) - g(y)) * key[1] < -1e-6 and k > l - 1e-9:
                return x, y
    return None


# ----------------------------------------------------------------- drivers

DRIVERS = [("double", "eigs", "src/arpack/eigs_d.cc"), ("z", "eigs", "src/arpack/eigs_z.cc"), ("double", "do_eigs", "src/arpack/eigs_map_d.cc"), ("z", "do_eigs", "src/arpack/eigs_map_z.cc")]
SPARSE = [("double", "src/arpack/eigs_sp_d.cc"), ("z", "src/arpack/eigs_sp_z.cc")]
GEMV = {"cblas_dgemv": 8, "cblas_zgemv": 16}


class Driver:
    def __init__(self, ctx, z, name, fn):
        self.ctx, self.z, self.name, self.fn = ctx, z, name, fn
        self.es = 8 if z == "double" else 16
        a = fn.sig.args
        self.map = name == "do_eigs"
        self.A = a[0].v
        if self.map:
            self.n, self.kind, self.neig, self.vec, self.conv = a[1].v, a[2].v, a[3].v, a[4].v, a[5].v
        else:
            self.t = tensor_arg(a[0])
            self.kind, self.neig, self.vec, self.conv = [x.v for x in a[1:5]]
            self.n = None

    def run(self):
        ctx, fn = self.ctx, self.fn
        w, cases, err = ctx.summary(fn)
        rules = ("refusal", "loop", "result", "small")
        if cases is None:
            for r in rules:
                ctx.unk(fn, r, err)
            return
        self.w = w
        self.out = {r: [] for r in rules}
        self.cnt = {r: 0 for r in rules}
        for c in cases:
            self.c, self.F = c, signed(c.facts)
            if not can(self.F):
                continue
            if not self.map:
                self.n = self.t.dim(1)
            try:
                self.case()
            except (Unknown, Lost) as e:
                for r in rules:
                    self.put(r, UNK, str(e))
        for r in rules:
            report(ctx, fn, r, self.out[r], self.cnt[r])

    def put(self, rule, v, what, loc=None):
        self.cnt[rule] += 1
        self.out[rule].append((v, what, loc or self.c.loc))

    def calls(self, pat, eff=None):
        return [(n, e) for n, e in enumerate(self.c.eff if eff is None else eff) if e[0] == "call" and isinstance(e[1], str) and re.search(pat, e[1])]

    def can(self, *conds):
        """the path allows the conditions"""
        return can(self.F, *conds)

    def case(self):
        c = self.c
        whole = self.calls(r"^linalg::eig\(")
        it = self.calls(r"Arpack::[RC]Arpack\(")
        if c.outcome == "ret":
            if not whole and not it:
                self.put("result", REFUTED, "returns without any decomposition")
                return
            self.refusals(bool(it))
            if it:
                self.iteration(it)
            else:
                self.complete(whole)
        elif it:
            self.stopped(it)

    def refusals(self, it):
        if not self.map:
            d = self.t
            if self.can(("eq", d.rank - 3)):
                return self.put("refusal", REFUTED, "arrays of three indices are accepted")
            if self.can(ceq(d.dim(0) - 4), ceq(d.dim(1) - 3), ceq(self.neig - 1)) or self.can(ceq(d.dim(0) - 7), ceq(d.dim(1) - 6), ceq(self.neig - 1)):
                return self.put("refusal", REFUTED, "matrices that are not square are accepted")
            if self.can(ceq(d.dim(0) - 3), ceq(d.dim(1) - 4), ceq(self.neig - 1)) or self.can(ceq(d.dim(0) - 6), ceq(d.dim(1) - 7), ceq(self.neig - 1)):
                return self.put("refusal", REFUTED, "matrices that are not square are accepted")
        if not it:
            leaf = lambda n, k: {list(self.n.atoms())[0]: n, list(self.neig.atoms())[0]: k}
            for n in (1, 2, 3, 4):
                for k in (0, n + 1, n + 3):
                    if possible([strip(x) for x in self.F.conds], leaf(n, k)) and self.can(ceq(self.n - n), ceq(self.neig - k)):
                        return self.put("refusal", REFUTED, "%d eigenvalues of a matrix with %d rows are not refused" % (k, n))
        self.put("refusal", PROVED, "")

    # ---- iteration

    def iteration(self, it):
        w, c, F = self.w, self.c, self.F
        n, e = it[0]
        data = e[2][0]
        if len(it) > 1:
            raise Unknown("several iterations")
        for k in (1, 2, 3, 4):
            lf = {list(self.n.atoms())[0]: k, list(self.neig.atoms())[0]: 1}
            if possible([strip(x) for x in F.conds], lf) and self.can(ceq(self.n - k), ceq(self.neig - 1)):
                self.put("small", REFUTED, "the iteration is used for matrices with %d rows" % k)
                break
        else:
            self.put("small", PROVED, "")
        for what, got, want in (("the number of rows", e[2][1], self.n), ("the kind of eigenvalues", e[2][2], self.kind), ("the number of eigenvalues", e[2][3], self.neig)):
            r = self.equal(got, want)
            self.put("loop", PROVED if r else UNK if r is None else REFUTED, "%s is %s, not %s" % (what, show(got)[:40], show(want)[:40]), e[3])
        for m, s in self.calls("::set_start_vector"):
            a = s[2][1]
            t = a.single()
            if not (t and t[0] == "buf" and t[1] == self.vec):
                self.put("loop", UNK if bad_atoms(a) else REFUTED, "the iteration starts with %s" % show(a)[:60], s[3])
                continue
            size = P.a("vsize", self.vec)
            if F.decide(("ne", self.vec)) is not True:
                self.put("loop", REFUTED, "starts with a vector that was not given", s[3])
            elif self.can(cge(self.n - size - 1), ceq(size)) or self.can(ceq(self.n - 9), ceq(size - 8)):
                self.put("loop", REFUTED, "starts with a vector that may be too short", s[3])
        loops = [(k, x) for k, x in enumerate(c.eff) if x[0] == "for" and any(y[0] == "call" and isinstance(y[1], str) and "::update()" in y[1] for p in x[3] for y in p[1])]
        ups = self.calls(r"::update\(\)")
        if len(loops) > 1 or not ups:
            raise Unknown("iteration of an unknown shape") if loops or ups else Unknown("no iteration")
        if not loops:
            self.put("loop", REFUTED, "the matrix is never applied")
        for k, x in loops:
            pre = [m for m, _ in ups if m < k]
            if pre and ups[-1][0] < k:
                raise Unknown("a rotated iteration")
            for conds, effs in x[3]:
                self.step(k, conds, effs, data, len(pre))
        self.ending(ups[-1], data)

    def equal(self, a, b):
        a, b = untrunc(a), untrunc(b)
        if a == b or self.F.decide(ceq(a - b)) is True:
            return True
        if not self.map and self.F.decide(ceq(self.t.dim(0) - self.t.dim(1))) is True:
            m = {list(self.t.dim(0).atoms())[0]: self.t.dim(1)}
            a, b = subst(a, m), subst(b, m)
            if a == b:
                return True
        return None if bad_atoms(a) else False

    def step(self, k, conds, effs, data, pre=0):
        """one round: update, product of the vector asked for, stored where wanted"""
        w, c = self.w, self.c
        eff = c.eff[:k] + list(effs)
        ups = [j for j, e in enumerate(effs) if e[0] == "call" and isinstance(e[1], str) and "::update()" in e[1]]
        loc = c.loc
        if len(ups) != 1:
            raise Unknown("%d updates in a round" % len(ups))
        is_prod = lambda e: e[0] == "call" and (not isinstance(e[1], str) and len(e[2]) == 3 or e[1] in GEMV)
        if any(is_prod(e) for e in effs[:ups[0]]):
            raise Unknown("a rotated iteration")
        if pre:
            between = [e for e in c.eff[:k] if is_prod(e) or e[0] == "call" and isinstance(e[1], str) and "::set_y(" in e[1]]
            if not between and not any(e[0] == "call" and isinstance(e[1], str) and "::get_status" in e[1] for e in c.eff[:k]):
                return self.put("loop", REFUTED, "a product asked for before the rounds is not computed", loc)
            raise Unknown("a first round apart")
        body = [(j, e) for j, e in enumerate(effs) if j > ups[0] and e[0] not in ("havoc",)]
        prods = [(j, e) for j, e in body if e[0] == "call" and (not isinstance(e[1], str) and len(e[2]) == 3 or e[1] in GEMV)]
        if len(prods) != 1:
            if not prods and not any(e[0] == "call" and isinstance(e[1], str) and not re.search(r"::(get|set)_[xy]", e[1]) for _, e in body):
                return self.put("loop", REFUTED, "a round without a product")
            raise Unknown("products in a round: %d" % len(prods))
        j, e = prods[0]
        loc = e[3]
        st = CState(w, c)
        st.eff = eff

        def event(v, name):
            a = v.single() if isinstance(v, P) else None
            while a and a[0] in ("callp", "res"):
                v = a[1]
                a = v.single() if isinstance(v, P) else None
            if a and a[0] == "evt":
                if "::" + name in str(a[1]):
                    return True
                if re.search(r"::get_[xy]", str(a[1])):
                    return False
            return None
        if isinstance(e[1], str):
            a = e[2]
            num = lambda p: [w.lookup(st, p + 8 * q, 8, "double", k + j).const() for q in (0, 1)]
            al, be = (a[4].const(), a[9].const()) if e[1] == "cblas_dgemv" else (num(a[4]), num(a[9]))
            if e[1] != "cblas_dgemv":
                al, be = [None if None in x else complex(*x) for x in (al, be)]
            tests = [("storage", None if a[0].const() is None else a[0].const() == 102), ("transposition", None if a[1].const() is None else a[1].const() == 111),
                     ("number of rows", self.equal(a[2], self.n)), ("number of columns", self.equal(a[3], self.n)), ("factor", None if al is None else al == 1),
                     ("matrix", self.equal(a[5], self.t.buf)), ("leading dimension", self.equal(a[6], self.n)), ("factor of the old result", None if be is None else be == 0),
                     ("vector", event(a[7], "get_x_vector")), ("spacing of the vector", None if a[8].const() is None else a[8].const() == 1),
                     ("place of the result", event(a[10], "get_y_vector")), ("spacing of the result", None if a[11].const() is None else a[11].const() == 1)]
            # vectors asked for before the update are those of the round before
            for v in (a[7], a[10]):
                if v.single() and v.single()[0] == "callp" and not any(x[0] == "call" and len(x) > 5 and x[5] == v.single()[1] for _, x in body):
                    tests.append(("moment the vectors were asked for", None))
            for what, r in tests:
                self.put("loop", PROVED if r else UNK if r is None else REFUTED, "the product has the wrong " + what, loc)
        else:
            T = Terms(w, c, eff)
            x, A, v = e[2][:3]
            self.put("loop", PROVED if A == self.A else UNK, "the map applied is not the one given", loc)
            t = T.tensor(v, k + j)
            r = None
            if t[0] == "call" and "::get_x()" in t[1]:
                r = t[2][0] == data
            elif t[0] == "call" and "::get_y()" in t[1]:
                r = False
            self.put("loop", PROVED if r else UNK if r is None else REFUTED, "the map is not applied to the vector asked for", loc)
            sy = [(m, s) for m, s in body if s[0] == "call" and isinstance(s[1], str) and "::set_y(" in s[1]]
            if not sy:
                self.put("loop", REFUTED if not any("get_y" in str(s[1]) for _, s in body) else UNK, "the result of the map is not stored", loc)
            for m, s in sy:
                t = T.tensor(s[2][1], k + m)
                r = t[0] == "apply" and t[3] == k + j
                self.put("loop", PROVED if r and s[2][0] == data else UNK if t[0] == "?" else REFUTED, "what is stored is not the result of the map", loc)

    def status(self, up, data, k):
        """conditions: the last update left status k"""
        n, e = up
        return [ceq(P.a("ldv", "i32", data, e[5]) - k), ceq(P.a("res", e[5]) - k)]

    def ending(self, up, data):
        w, c, F = self.w, self.c, self.F
        got = self.calls(r"::get_data\(")
        T = Terms(w, c)
        loc = up[1][3]
        if self.can(*self.status(up, data, RUN)):
            return self.put("loop", REFUTED, "leaves the iteration while a product is asked for", loc)
        flag = None
        if F.decide(("ne", self.conv)) is True:
            flag = w.lookup(CState(w, c), self.conv, 1, "i8", len(c.eff))
            if flag == P.a("ld", "i8", self.conv) or field(flag, self.conv) == 0:
                return self.put("result", REFUTED, "does not say whether the iteration converged", loc)
            flag = flag.const()
            if flag is None:
                raise Unknown("flag")
        if got:
            n, e = got[0]
            if self.can(*self.status(up, data, 4)):
                return self.put("result", REFUTED, "extracts results of an iteration that failed", e[3])
            if flag is not None and flag == 0:
                return self.put("result", REFUTED, "reports failure of an iteration that finished", e[3])
            if e[2][0] != self.fn.sig.sret or e[2][1] != data:
                raise Unknown("extraction")
            r = same_addr(e[2][2], self.vec)
            if r is False and e[2][2].const() == 0 and F.decide(ceq(self.vec)) is True:
                r = True
            self.put("result", PROVED if r else UNK if r is None else REFUTED, "the eigenvectors go to %s" % show(e[2][2])[:40], e[3])
            t = T.tensor(self.fn.sig.sret)
            self.put("result", PROVED if t[0] == "call" and "::get_data(" in t[1] else UNK, "what is returned is not what was extracted", e[3])
            return
        if self.can(*self.status(up, data, DONE)):
            return self.put("result", REFUTED, "returns something else than the results of a finished iteration", loc)
        if F.decide(("ne", self.conv)) is not True:
            return self.put("result", REFUTED, "returns after a failure without a way to say so", loc)
        if flag:
            return self.put("result", REFUTED, "reports success of an iteration that failed", loc)
        n = w.vec(CState(w, c), self.fn.sig.sret).size
        r = self.equal(n, self.neig)
        self.put("result", PROVED if r else UNK if r is None else REFUTED, "returns %s values after a failure" % show(n)[:40], loc)

    def stopped(self, it):
        ups = self.calls(r"::update\(\)")
        if not ups or self.calls(r"::get_data\("):
            return
        data = it[0][1][2][0]
        if any(x[0] == "for" and any(y[0] == "call" and isinstance(y[1], str) and "::update()" in y[1] for p in x[3] for y in p[1]) for x in self.c.eff[ups[-1][0]:]):
            return self.put("result", UNK, "a rotated iteration")
        if self.can(*self.status(ups[-1], data, DONE)):
            self.put("result", REFUTED, "stops although the iteration finished", ups[-1][1][3])
        elif self.F.decide(("ne", self.conv)) is True:
            self.put("result", REFUTED, "stops instead of reporting that the iteration failed", ups[-1][1][3])

    # ---- complete decomposition

    def complete(self, whole):
        w, c, F = self.w, self.c, self.F
        T = Terms(w, c)
        n, e = whole[0]
        if len(whole) > 1:
            raise Unknown("several decompositions")
        so = self.calls(r"::sort_values\(")
        loc = e[3]
        want = F.decide(("ne", self.vec))
        if self.map:
            self.columns(n, e)
        else:
            t = T.tensor(e[2][1], n)
            r = True if t == ("arg", self.A) else None if t[0] == "?" else False
            self.put("small", PROVED if r else UNK if r is None else REFUTED, "another matrix is decomposed", loc)
        if F.decide(("ne", self.conv)) is True:
            v = w.lookup(CState(w, c), self.conv, 1, "i8", len(c.eff))
            k = v.const()
            self.put("result", PROVED if k == 1 else REFUTED if k == 0 or v == ld(self.conv, "i8") else UNK, "does not report success", loc)
        t = T.tensor(self.fn.sig.sret)
        self.chosen(t, "values", so, loc)
        if want is True:
            self.chosen(T.tensor(self.vec), "right", so, loc)
        elif want is None:
            self.put("small", UNK, "eigenvectors", loc)

    def chosen(self, t, what, so, loc):
        name = {"values": "eigenvalues", "right": "eigenvectors"}[what]
        real = False
        while t[0] == "map" and len(t[3]) == 1:
            if t[1] != ("un", "real") and t[1] != "real" and "real" not in str(t[1]):
                if "imag" in str(t[1]) or "abs" in str(t[1]):
                    return self.put("small", REFUTED, "the %s are changed by %s" % (name, t[1]), loc)
                return self.put("small", UNK, "the %s are mapped" % name, loc)
            real, t = True, t[3][0]
        if t[0] == "arg":
            return self.put("small", REFUTED, "the %s are not given" % name, loc)
        if t[0] == "eig":
            return self.put("small", REFUTED, "all %s are returned, in the order of the decomposition" % name, loc)
        if t[0] != "part" or t[1][0] != "eig":
            return self.put("small", UNK, "the %s: %s" % (name, str(t)[:80]), loc)
        if t[1][1] != what:
            return self.put("small", REFUTED, "the %s are those on the %s" % (name, t[1][1]), loc)
        rs = t[2]
        if len(rs) != (1 if what == "values" else 2):
            return self.put("small", UNK, "ranges", loc)
        if what == "right":
            if rs[0] != ("full",):
                return self.put("small", UNK if rs[0][0] == "?" or rs[1] != ("full",) else REFUTED, "rows instead of columns are taken from the eigenvectors", loc)
        r = rs[-1]
        if r[0] in ("step", "full"):
            return self.put("small", REFUTED, "the %s are not chosen by the order" % name, loc)
        if r[0] != "list":
            return self.put("small", UNK, "ranges", loc)
        self.put("small", *self.first(r, so, name), loc)

    def first(self, r, so, name):
        """the list of positions is the beginning of the order"""
        w, c = self.w, self.c
        _, addr, k = r
        cs = CState(w, c).upto(k)
        v = w.vec(cs, addr)
        q = self.equal(v.size, self.neig)
        if q is not True:
            return (UNK if q is None else REFUTED, "%s %s are returned" % (show(v.size)[:40], name))
        if len(so) != 1:
            return (UNK, "order")
        n, e = so[0]
        T = Terms(w, c)
        t = T.tensor(e[2][1], n)
        if t[0] != "eig" or t[1] != "values":
            return (UNK, "what is sorted")
        if self.equal(e[2][2], self.kind) is not True:
            return (UNK if bad_atoms(e[2][2]) else REFUTED, "sorted by another kind than asked for")
        for p in self.positions(cs, v):
            if p is None:
                return (UNK, "the positions")
            i, b, o = p
            a = atom(b)
            if not (a[0] == "buf" and len(a) > 2 and isinstance(a[1], P) and a[1] == e[5]):
                return (UNK, "the positions")
            if o != i:
                return (UNK if bad_atoms(o) else REFUTED, "the %s at place %s of the order is returned at place %s" % (name[:-1], show(o.scale(1) if False else o)[:40], show(i)[:40]))
        return (PROVED, "")

    def positions(self, cs, v):
        """(offset, source, offset there) of all parts of an index list"""
        eff = cs.eff
        buf = v.buf
        n = len(eff)
        while n:
            n -= 1
            e = eff[n]
            if e[0] == "vcopy" and e[1] == buf:
                buf = e[2]
                a = buf.single()
            elif e[0] == "vnew" and e[1] == buf:
                break
        else:
            a = buf.single()
            if a and a[0] == "buf" and len(a) > 2:
                return [(ZERO, list(buf.atoms())[0], ZERO)]
            return [None]
        res = []
        base = list(buf.atoms())[0]
        from walk import touched
        for e in eff[n + 1:]:
            if e[0] == "cpy" and base_of(e[1])[0] == base:
                b, o = base_of(e[2])
                res.append((base_of(e[1])[1], b, o) if b is not None else None)
            elif e[0] == "st" and base_of(e[1])[0] == base:
                a = e[3].single()
                if a and a[0] in ("ld", "ldv"):
                    b, o = base_of(a[2])
                    res.append((base_of(e[1])[1], b, o) if b is not None else None)
                else:
                    res.append(None)
            elif e[0] == "for" and base in touched(e):
                if len(e[3]) != 1 or e[3][0][0]:
                    return [None]
                for x in e[3][0][1]:
                    a = x[3].single() if x[0] == "st" and isinstance(x[3], P) else None
                    if x[0] == "st" and base_of(x[1])[0] == base and a and a[0] in ("ld", "ldv"):
                        b, o = base_of(a[2])
                        res.append((base_of(x[1])[1], b, o) if b is not None else None)
                    else:
                        return [None]
        return res or [None]

    def columns(self, n, e):
        """the matrix decomposed has the images of the unit vectors as columns"""
        w, c = self.w, self.c
        M = e[2][1]
        loc = e[3]
        r = dims_verdict(CState(w, c).upto(n), M, [self.n, self.n], self.F)
        self.put("small", r[0], "the matrix decomposed: " + r[1], loc)
        loops = [(k, x) for k, x in enumerate(c.eff[:n]) if x[0] == "for" and any(y[0] == "call" and not isinstance(y[1], str) for p in x[3] for y in p[1])]
        if len(loops) != 1:
            return self.put("small", UNK, "the matrix decomposed", loc)
        k, x = loops[0]
        i = P({(x[1],): 1})
        q = self.equal(x[2], self.n)
        self.put("small", PROVED if q else UNK if q is None else REFUTED, "%s columns of the matrix are computed" % show(x[2])[:40], loc)
        for conds, effs in x[3]:
            effs = list(effs)
            ap = [(j, y) for j, y in enumerate(effs) if y[0] == "call" and not isinstance(y[1], str) and len(y[2]) == 3]
            at = [(j, y) for j, y in enumerate(effs) if y[0] == "call" and isinstance(y[1], str) and re.search(r"::at\(tensor::PRange, tensor::PRange\)$", y[1])]
            asg = [(j, y) for j, y in enumerate(effs) if y[0] == "call" and isinstance(y[1], str) and "mutable_view::operator=(" in y[1]]
            if len(ap) != 1 or len(at) != 1 or len(asg) != 1:
                return self.put("small", UNK, "a column of the matrix", loc)
            T = Terms(w, c, c.eff[:k] + effs)
            j, y = at[0]
            rs = [T.range(p, k + j) for p in y[2][2:4]]
            if y[2][1] != M or asg[0][1][2][0] != y[2][0] or any(z[0] == "?" for z in rs):
                return self.put("small", UNK, "a column of the matrix", loc)
            if rs[0] != ("full",) or rs[1] != ("one", i):
                bad = rs[1] == ("full",) and rs[0][0] == "one" or rs[1][0] == "one"
                return self.put("small", REFUTED if bad else UNK, "the image of a unit vector is not stored as its column", loc)
            t = T.tensor(asg[0][1][2][1], k + asg[0][0])
            while t[0] == "map" and t[1] == "complex":
                t = t[3][0]
            if t[0] != "apply" or t[2][1] != self.A:
                return self.put("small", UNK, "the image of a unit vector", loc)
            self.unit(effs[:ap[0][0]], ap[0][1][2][2], i, loc)

    def unit(self, effs, v, i, loc):
        """v is the i-th unit vector"""
        from walk import touched
        buf = None
        for e in effs:
            if e[0] == "vnew" and e[3] == v:
                buf, size = e[1], e[2]
        if buf is None:
            return self.put("small", UNK, "a unit vector", loc)
        base = list(buf.atoms())[0]
        q = self.equal(size, self.n)
        cells, zero = {}, False
        for e in effs:
            if e[0] == "for" and base in touched(e):
                if any(y[0] != "st" or y[3].const() != 0 for p in e[3] for y in p[1]):
                    return self.put("small", UNK, "a unit vector", loc)
                zero = True
            elif e[0] == "set" and base_of(e[1])[0] == base:
                zero = e[2].const() == 0
            elif e[0] == "st" and base_of(e[1])[0] == base:
                cells[base_of(e[1])[1]] = e[3]
            elif e[0] in ("cpy", "map", "vcopy") and base_of(e[1])[0] == base:
                return self.put("small", UNK, "a unit vector", loc)
        want = {i.scale(self.es): 1}
        got = {o: x.const() for o, x in cells.items() if x.const() != 0}
        ok = got == want and zero and q is True
        self.put("small", PROVED if ok else REFUTED if None not in got.values() and zero and q is not None else UNK, "the map is not applied to the unit vectors", loc)


def sparse(ctx, z, fn):
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, "refusal", err)
    A = fn.sig.args[0].v
    D = P.a("buf", A)
    rows, cols = ld(D, "i64"), ld(D + 8, "i64")
    ref, loop, rets = [], [], 0
    for c in cases:
        if c.outcome != "ret":
            continue
        rets += 1
        cl = [(n, e) for n, e in enumerate(c.eff) if e[0] == "call" and isinstance(e[1], str) and e[1].startswith("linalg::do_eigs(")]
        mk = [e for e in c.eff if e[0] == "call" and isinstance(e[1], str) and "::MatrixMap(" in e[1]]
        if len(cl) != 1 or len(mk) != 1 or cl[0][1][2][0] != fn.sig.sret or len(fn.sig.args) != 5:
            ref.append((UNK, "calls", c.loc))
            loop.append((UNK, "calls", c.loc))
            continue
        F = c.facts
        a = cl[0][1][2]
        loc = cl[0][1][3]
        for x, y in ((3, 4), (4, 3), (8, 9), (9, 8)):
            if can(F, ceq(rows - x), ceq(cols - y)):
                ref.append((REFUTED, "matrices that are not square are accepted", loc))
                break
        else:
            ref.append((PROVED, "", loc))
        tr = mk[0][2][2]
        tr = 0 if tr == ("F",) else 1 if tr == ("T",) else tr.const() if isinstance(tr, P) else None
        tests = [("map", a[1] == mk[0][2][0] and mk[0][2][1] == A or None), ("transposition", None if tr is None else tr == 0),
                 ("number of rows", a[2] == rows or a[2] == cols or (None if bad_atoms(a[2]) else False))]
        for what, got, x in zip(("kind", "number of eigenvalues", "place of the eigenvectors", "flag"), a[3:], fn.sig.args[1:]):
            tests.append((what, untrunc(got) == untrunc(x.v) or (None if bad_atoms(got) else False)))
        for what, r in tests:
            loop.append((PROVED if r else UNK if r is None else REFUTED, "the iteration gets another " + what, loc))
    report(ctx, fn, "refusal", ref, rets)
    report(ctx, fn, "loop", loop, rets)
