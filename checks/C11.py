"""Views: what ranges enumerate, how products of ranges walk a tensor, and how views read and write through them."""
from ranges import *
import itertools

SRC = "src/views/range.cc"
T = lambda *a: P.a("tok", *a)
L, F1, F2, K, N, X, S, E, ST, R, PHI = (T(x) for x in ("L", "F1", "F2", "k", "n", "x", "s", "e", "t", "r", "phi"))


def tid(p):
    return list(p.atoms())[0]


def run(ctx):
    ctx.rule("leaf", "from construction over limiting, scaling and rewinding, the values popped are exactly those the range describes, in order, and then the end mark; by induction over the pops")
    ctx.rule("size", "the size announced is the number of values popped; a range reaching outside its dimension is refused, an empty one is not")
    ctx.rule("product", "a product of two ranges yields every sum of one value of each, the first range running fastest, for every length of the two")
    ctx.rule("factor", "the second range of a product is scaled by the extent of the first")
    ctx.rule("view", "a view limits each range with the extent of its own dimension, takes the extents from the ranges and combines the ranges in order")
    ctx.rule("copy", "reading a view stores the element of each position in turn; assigning writes each position, in turn, once")
    ctx.rule("owner", "the ranges of a view are deleted with it, each once")
    ctx.rule("make", "range() builds the kind of range its arguments describe")
    units = [f.unit for f in ctx.fns("vec", [SRC])][:1]
    if not units:
        raise AnalysisError("no code in " + SRC)
    unit = units[0]
    names = slots(unit)
    if not names or not {"pop", "set_factor", "set_limit", "size", "reset"} <= set(names.values()):
        raise AnalysisError("the table of virtual functions of Range is not as expected")
    byname = {f.dem: f for f in ctx.fns("vec", [SRC])}
    runners = {}
    for cls in ("FullRange", "SingleRange", "StepRange", "IndexRange"):
        runners[cls] = leaf(ctx, unit, cls, byname, names)
    lims = products(ctx, unit, byname, names, runners)
    views(ctx, names, lims)
    make(ctx)


# ---------------------------------------------------------------- leaves

def say(ctx, fn, rule, v, d=""):
    ctx.add(fn, rule, PROVED if v is True else REFUTED if v is False else UNK, d)


class Sc:
    """one way of using a range: constructor arguments, what is known, whether it must be refused, its values"""

    def __init__(self, name, args, facts, ok=True, n=None, val=None, here=None, past=None, elems=None, cnt=None):
        self.name, self.args, self.facts, self.ok, self.n, self.val, self.here, self.past = name, args, facts, ok, n, val, here, past
        self.elems, self.cnt = elems, cnt


def scenarios(cls):
    nn = [cge(L)]
    if cls == "FullRange":
        yield Sc("all", [], nn, True, L, lambda k, f: k * f,
                 ({tid(L): K + 1 + R}, []), ({tid(L): K}, []))
    elif cls == "SingleRange":
        for nm, v, cs in (("i", S, [cge(S), cge(L - S - 1)]), ("-i", S + L, [cge(-S - 1), cge(S + L)])):
            yield Sc(nm, [S], nn + cs, True, ONE, lambda k, f, v=v: v * f, ({tid(K): ZERO}, []), ({tid(K): ONE}, []))
        yield Sc("i beyond", [S], nn + [cge(S - L)], False)
        yield Sc("-i beyond", [S], nn + [cge(-S - L - 1)], False)
    elif cls == "StepRange":
        for sg in (1, -1):
            t = ST if sg > 0 else -ST
            for a, b in itertools.product((0, 1), repeat=2):
                s, e = (S + L if a else S), (E + L if b else E)
                cs = nn + [cge(ST - 1), cge(-S - 1) if a else cge(S), cge(-E - 1) if b else cge(E)]
                d = (e - s).scale(sg)
                nm = "%s:%s step %s" % ("-s" if a else "s", "-e" if b else "e", "+" if sg > 0 else "-")
                ins = [cge(s), cge(L - s - 1), cge(e), cge(L - e - 1)]
                sub = lambda q, a=a, b=b: {tid(E): q - (L if b else ZERO)}
                at = lambda k, s=s, t=t: s + k * t
                yield Sc(nm, [S, E, t], cs + ins + [cge(d)], True, P.a("div", e - s, t) + 1, lambda k, f, at=at: at(k) * f,
                         (sub(at(K) + R.scale(sg)), []), (sub(at(K) - (R + 1).scale(sg)), []))
                yield Sc(nm + " empty", [S, E, t], cs + [cge(-d - 1)], True, ZERO, lambda k, f, at=at: at(k) * f, None, ({tid(K): ZERO}, []))
                for j, x in enumerate((-s - 1, s - L, -e - 1, e - L)):
                    if (j == 0 and not a) or (j == 2 and not b) or (j == 1 and a) or (j == 3 and b):
                        continue
                    yield Sc(nm + " beyond %d" % j, [S, E, t], cs + [cge(d), cge(x)], False)
    elif cls == "IndexRange":
        base = nn + [cge(K), cge(N - K - 1)]
        for nm, v, cs in (("i", X, [cge(X), cge(L - X - 1)]), ("-i", X + L, [cge(-X - 1), cge(X + L)])):
            yield Sc(nm, [None], base + cs, True, N, lambda k, f, v=v: v * f, ({}, []), ({tid(K): N}, []), {K: X}, N)
        yield Sc("i beyond", [None], base + [cge(X - L)], False, elems={K: X}, cnt=N)
        yield Sc("-i beyond", [None], base + [cge(-X - L - 1)], False, elems={K: X}, cnt=N)


def leaf(ctx, unit, cls, byname, names):
    tab = table(unit, cls)
    fns = {}
    ctor = [f for d, f in byname.items() if d.startswith("tensor::%s::%s(" % (cls, cls))]
    if tab is None or not ctor:
        raise AnalysisError("no class " + cls)
    fns["ctor"] = ctor[0]
    bym = {f.name: f for f in byname.values()}
    for (nm, off), mg in tab.items():
        if mg in bym:
            fns[nm] = bym[mg]
    run = Runner(ctx, unit, cls, fns, names)
    anchor = fns.get("pop") or ctor[0]
    for sc in scenarios(cls):
        rule = "leaf" if sc.ok else "size"
        for factors in (((), (F1,), (F1, F2)) if sc.ok else ((),)):
            what = "%s %s%s" % (cls, sc.name, ", scaled %d times" % len(factors) if factors else "")
            try:
                why = prove(run, sc, factors)
            except (Stuck, Unknown) as e:
                why = "not followed: %s" % e
            if why is None:
                ctx.ok(anchor, rule, what)
                if sc.ok and not factors:
                    ctx.ok(fns.get("size") or anchor, "size", what)
                continue
            ctx.unk(anchor, rule, what + ": " + why[:200])
            run.open = True
    if getattr(run, "open", False):
        box(ctx, run, cls, anchor)
    return run


def begin(run, sc, args, facts, limit, factors, elems=None, cnt=None, zero=None):
    """-> [(facts, object, announced size, outcome)] after construction, limiting, scaling and rewinding"""
    F = Facts([c for c in facts])
    o = Obj({}, elems, cnt)
    out = []
    for f, o1, _, oc in run.apply("ctor", o, args, F):
        if oc != "ret":
            out.append((f, None, None, oc))
            continue
        o1.elems, o1.n = dict(elems or {}), cnt
        for f2, o2, _, oc2 in run.apply("set_limit", o1, [limit], f):
            if oc2 != "ret":
                out.append((f2, None, None, oc2))
                continue
            for f3, o3, n, oc3 in run.apply("size", o2, [], f2):
                if oc3 != "ret":
                    out.append((f3, None, None, oc3))
                    continue
                st = [(f3, o3)]
                for q in list(factors) + [None]:
                    nx = []
                    for g, ob in st:
                        r = run.apply("set_factor", ob, [q], g) if q is not None else run.apply("reset", ob, [], g)
                        for g2, ob2, _, oc4 in r:
                            if oc4 != "ret":
                                out.append((g2, None, None, oc4))
                            else:
                                nx.append((g2, ob2))
                    st = nx
                out += [(g, ob, n, "ret") for g, ob in st]
    return out


def prove(run, sc, factors):
    """None when the induction goes through, otherwise what is missing"""
    facts = sc.facts + [cge(q - 1) for q in factors]
    f = factors[-1] if factors else ONE
    ends = begin(run, sc, sc.args, facts, L, factors, sc.elems, sc.cnt)
    if not sc.ok:
        return None if all(oc != "ret" for _, _, _, oc in ends) else "accepted"
    if any(oc != "ret" for _, _, _, oc in ends):
        return "refused"
    if not ends:
        return "no way through"
    for g, o, n, _ in ends:
        if not (n == sc.n or g.eq0(n - sc.n) or simplify(n - sc.n, g) == ZERO):
            return "size %s" % show(n)[:80]
        z = {tid(q): T("phi", k) + 1 for k, q in enumerate(factors)}
        if sc.here is not None:
            # the cells after k pops: linear in k
            h0 = dict(sc.here[0])
            first = {i: subst(p, {tid(K): ZERO}) for i, p in h0.items() if i != tid(K)}
            g0, o0 = specialise(g, o, {**z, **first}, [cge(R)] + [cge(T("phi", k)) for k in range(len(factors))], sc, k0=True)
            r = run.apply("pop", o0, [], g0)
            if len(r) != 1 or r[0][3] != "ret":
                return "first pop"
            o1 = r[0][1]
            step = {c: o1.cells[c] - o0.cells[c] for c in o0.cells if c}
            gk, ok = specialise(g, o, {**z, **h0}, [cge(R), cge(K)] + [cge(T("phi", k)) for k in range(len(factors))], sc)
            st = {c: subst(p, {**z, **h0}) for c, p in step.items()}
            kk = h0.get(tid(K), K)
            for c, d in st.items():
                if contains(d, {tid(R)}):
                    return "cell %d moves unevenly" % c
                ok.cells[c] = ok.cells[c] + kk * d
            r = run.apply("pop", ok, [], gk)
            want = subst(sc.val(K, f), {**z, **h0})
            if not r:
                return "no pop"
            for g2, o2, v, oc in r:
                if oc != "ret" or not isinstance(v, P):
                    return "a pop ends with %s" % oc
                if v != want and not g2.eq0(v - want):
                    return "pop gives %s instead of %s" % (show(v)[:60], show(want)[:60])
                for c, d in st.items():
                    x = o2.cells[c] - ok.cells[c] - d
                    if x != ZERO and not g2.eq0(x):
                        return "cell %d after a pop" % c
                for q in o2.elems:
                    if o2.elems[q] != ok.elems[q]:
                        return "a pop changes the list"
        else:
            st = {}
        p0 = dict(sc.past[0])
        gk, ok = specialise(g, o, {**z, **p0}, [cge(R), cge(K)] + [cge(T("phi", k)) for k in range(len(factors))], sc, past=True)
        kk = p0.get(tid(K), K)
        for c, d in (step if sc.here is not None else {}).items():
            ok.cells[c] = ok.cells[c] + kk * subst(d, {**z, **p0})
        for g2, o2, v, oc in run.apply("pop", ok, [], gk):
            if oc != "ret" or not isinstance(v, P) or v.const() != -1:
                return "past the end a pop gives %s" % (show(v)[:60] if isinstance(v, P) else oc)
        again = run.apply("reset", ok, [], gk)
        for g2, o2, v, oc in again:
            for c in o.cells:
                if c and oc == "ret":
                    x = o2.cells[c] - subst(o.cells[c], {**z, **p0})
                    if x != ZERO and not g2.eq0(x):
                        return "cell %d is not rewound" % c
    return None


def specialise(g, o, z, extra, sc, k0=False, past=False):
    """facts and cells under a substitution of the parameters"""
    conds = []
    for c in g.conds:
        if past and sc.elems:
            if contains(c, {tid(K)}) or contains(c, {tid(X)}):
                continue
        d = rebuild_cond(subst(c, z))
        if k0:
            d = rebuild_cond(subst(d, {tid(K): ZERO}))
        conds.append(d)
    F = Facts(conds + extra)
    el = {}
    for q, v in o.elems.items():
        q2 = subst(q, z) if not (past and sc.elems) else q
        el[ZERO if k0 and q2 == K else q2] = subst(v, z)
    return F, Obj({c: subst(p, z) for c, p in o.cells.items()}, el, subst(o.n, z) if isinstance(o.n, P) else o.n)


# ---------------------------------------------------------------- small instances of the summaries: only to say what is wrong
def box(ctx, run, cls, anchor):
    bad = 0
    try:
        for args, elems, lim, factors in instances(cls):
            want = expected(cls, args, elems, lim)
            f = factors[-1] if factors else 1
            cells = {P.c(i): P.c(v) for i, v in enumerate(elems)} if elems is not None else None
            ends = begin(run, None, [P.c(a) for a in args] if elems is None else [None], [], P.c(lim), [P.c(q) for q in factors],
                         cells, P.c(len(elems)) if elems is not None else None)
            if len(ends) != 1:
                return
            g, o, n, oc = ends[0]
            what = "%s(%s) limited to %d%s" % (cls, ", ".join(map(str, args if elems is None else elems)), lim,
                                                ", scaled by " + " then ".join(map(str, factors)) if factors else "")
            if want is None or oc != "ret":
                if (want is None) != (oc != "ret"):
                    ctx.bad(run.fns.get("set_limit", anchor), "size", what + (" is accepted" if want is None else " is refused"), key=cls)
                    bad += 1
            else:
                if n.const() != len(want):
                    ctx.bad(run.fns.get("size", anchor), "size", "%s announces %s values, has %d" % (what, n.const(), len(want)), key=cls)
                    bad += 1
                for turn in range(2):
                    got = []
                    while len(got) < len(want) + 1:
                        r = run.apply("pop", o, [], g)
                        if len(r) != 1 or r[0][3] != "ret" or r[0][2].const() is None:
                            return
                        o = r[0][1]
                        v = int(r[0][2].const())
                        got.append(v)
                        if v == -1:
                            break
                    if got != [w * f for w in want] + [-1]:
                        ctx.bad(run.fns.get("pop", anchor), "leaf", "%s yields %s%s instead of %s" % (what, got, " after a reset" if turn else "", [w * f for w in want]), key=cls)
                        bad += 1
                        break
                    r = run.apply("reset", o, [], g)
                    if len(r) != 1:
                        return
                    o = r[0][1]
            if bad >= 2:
                return
    except (Stuck, Unknown):
        return


def instances(cls):
    fs = ((), (1,), (3,), (2, 6), (4, 2))
    if cls == "FullRange":
        for l in (0, 1, 2, 5):
            for f in fs:
                yield [], None, l, f
    elif cls == "SingleRange":
        for l in (0, 1, 3):
            for s in range(-4, 4):
                for f in fs:
                    yield [s], None, l, f
    elif cls == "StepRange":
        for f in ((), (2, 6)):
            for l in (0, 1, 4):
                for s in (-5, -4, -2, -1, 0, 1, 3, 4):
                    for e in (-5, -4, -2, -1, 0, 1, 3, 4):
                        for t in (1, 2, 3, -1, -2):
                            yield [s, e, t], None, l, f
    else:
        for f in fs:
            for l in (1, 3):
                for el in ([], [0], [2, 0], [-1, 1, 1], [-3], [3], [-4], [0, 2, 3], [0, -1, 2, 1]):
                    yield [], el, l, f


def expected(cls, args, elems, lim):
    norm = lambda i: i + lim if i < 0 else i
    if cls == "FullRange":
        return list(range(lim))
    if cls == "SingleRange":
        return [norm(args[0])] if 0 <= norm(args[0]) < lim else None
    if cls == "StepRange":
        s, e, t = norm(args[0]), norm(args[1]), args[2]
        v = list(range(s, e + (1 if t > 0 else -1), t))
        return v if not v or (0 <= s < lim and 0 <= e < lim) else None
    v = [norm(i) for i in elems]
    return v if all(0 <= i < lim for i in v) else None


# ---------------------------------------------------------------- products
def products(ctx, unit, byname, names, runners):
    get = lambda nm: [f for d, f in byname.items() if d.startswith("tensor::ProductRange::%s(" % nm)]
    ctor, pop, reset, setf, size = (get(x) for x in ("ProductRange", "pop", "reset", "set_factor", "size"))
    if not all((ctor, pop, reset, setf, size)):
        raise AnalysisError("no class ProductRange")
    pre = watching(names)

    def summ(fn):
        _, cs, err = ctx.summary(fn, None, preset=pre, key="watch")
        if cs is None:
            raise Stuck(err)
        return [c for c in cs if c.outcome == "ret" and not infeasible(c.facts)]
    ctor, pop, reset, setf, size = ctor[0], pop[0], reset[0], setf[0], size[0]
    R1, R2 = P.a("argp", 1), P.a("argp", 2)
    # constructor: what the second range is scaled by
    lim_off = None
    cells = {}
    try:
        this = Sig(ctor.f).this
        for c in summ(ctor):
            sc = [e for e in c.eff if e[0] == "call" and e[1] == ("virt", "set_factor")]
            for e in c.eff:
                if e[0] == "st" and (e[1] - this).const() is not None:
                    cells[int((e[1] - this).const())] = e[3]
            # fields of the ranges the expression reads
            v, d = given(sc, R1, R2, c, ONE, runners, this)
            say(ctx, ctor, "factor", v, d)
            lim_off = lim_off or d
        this = Sig(setf.f).this
        f = Sig(setf.f).args[0].v
        kids = {q: p for q, p in cells.items() if p in (R1, R2)}
        for c in summ(setf):
            sc = [e for e in c.eff if e[0] == "call" and e[1] == ("virt", "set_factor")]
            m = {}
            for e in sc:
                for x in [e[2][0], e[2][1]] + list(c.facts.conds):
                    for i, a in leafs(x):
                        if a[0] == "ldp" and (a[2] - this).const() in kids:
                            m[i] = kids[(a[2] - this).const()]
            sc = [("call", e[1], [subst(x, m) for x in e[2]]) + tuple(e[3:]) for e in sc]
            facts = Facts([rebuild_cond(subst(x, m)) for x in c.facts.conds])
            v, d = given(sc, R1, R2, c, f, runners, this, facts)
            say(ctx, setf, "factor", v, d)
    except (Stuck, Unknown) as e:
        ctx.unk(ctor, "factor", str(e)[:200])
    # the walk
    try:
        sums = {"reset": summ(reset), "pop": summ(pop)}
        why = None
        for a, b in itertools.product(range(4), range(4)):
            xs, ys = [T("x", i) for i in range(a)], [T("y", j) for j in range(b)]
            F = Facts([cge(q) for q in xs + ys])
            want = [x + y for y in ys for x in xs]
            streams = {R1: Stream(xs), R2: Stream(ys)}
            mem = dict(cells)
            for turn in range(2):
                got, mem, streams = drive(sums, reset, pop, names, streams, F, mem, len(want) + 1)
                if got != want + [-ONE]:
                    why = "ranges of %d and %d values%s: %s" % (a, b, " after a rewind" if turn else "", [show(q) for q in got][:8])
                    break
                # stop half way: a rewind starts anew
                if turn == 0 and len(want) > 1:
                    _, mem, streams = drive(sums, reset, pop, names, streams, F, mem, len(want) // 2 + 1)
            if why:
                break
        if why:
            ctx.bad(pop, "product", why)
        else:
            ctx.ok(pop, "product", "lengths 0 to 3 of either range, twice")
    except Stale as e:
        ctx.bad(reset, "product", str(e))
    except (Stuck, Unknown) as e:
        ctx.unk(pop, "product", str(e)[:200])
    try:
        this = Sig(size.f).this
        for c in summ(size):
            a, b = T("n", 1), T("n", 2)
            pl = Play(size, [c], {R1: Stream([], a), R2: Stream([], b)}, Facts([cge(a), cge(b)]), cells, this)
            for _, _, _, r, _ in pl.run(names):
                if r == a * b:
                    ctx.ok(size, "product", "size")
                elif isinstance(r, P) and {i for i in r.atoms()} <= {tid(a), tid(b)}:
                    ctx.bad(size, "product", "the size of a product is %s" % show(r))
                else:
                    ctx.unk(size, "product", "size " + show(r)[:100])
    except (Stuck, Unknown) as e:
        ctx.unk(size, "product", str(e)[:200])
    owners(ctx, unit, byname, names, cells, (R1, R2), summ)
    return cells


def given(sc, R1, R2, c, f, runners, this, facts=None):
    """is the second range scaled by f times the extent of the first (as the leaf classes keep it), the first by f"""
    F = facts or c.facts
    to1 = [e[2][1] for e in sc if e[2][0] == R1]
    to2 = [e[2][1] for e in sc if e[2][0] == R2]
    if len(to1) + len(to2) != len(sc) or not to2:
        return (None, "the ranges scaled are not recognised") if len(to1) + len(to2) != len(sc) else (False, "the second range is not scaled")
    if f != ONE and (not to1 or to1[-1] != f):
        return False, "the first range is scaled by %s" % (show(to1[-1]) if to1 else "nothing")
    worst_ = (True, "scaled by the extent of the first range")
    for cls, run in runners.items():
        try:
            ends = leafstate(run, cls)
        except (Stuck, Unknown):
            return None, "the limit of a %s is not followed" % cls
        for g, o in ends:
            m = {}
            old = {q for q, x in o.cells.items() if q in factor_cells(run)}
            G = ONE if f == ONE else T("g")
            for x in [to2[-1]] + list(F.conds):
                for i, a in leafs(x):
                    if a[0] in ("ld", "ldp") and (a[2] - R1).const() is not None:
                        off = int((a[2] - R1).const())
                        if off not in o.cells:
                            return None, "cell %d of the first range" % off
                        m[i] = o.cells[off] * G if off in old else o.cells[off]
                    elif a[0] == "ld" and (a[2] - R2).const() is not None and f != ONE:
                        # the second range was scaled when the product was made
                        off = int((a[2] - R2).const())
                        if off not in old:
                            return None, "cell %d of the second range" % off
                        m[i] = G * L
            # an empty dimension: there is nothing to walk, but later factors divide by this one
            g0 = g.add(ceq(L)).add(cge(f - 1)).add(cge(G - 1))
            m0 = {i: G if v == G * L else v for i, v in m.items()}
            for x in F.conds:
                g0 = g0.add(rebuild_cond(subst(x, m0)))
            if not infeasible(g0):
                v = g0.reduce(subst(to2[-1], m0))
                if v.const() == 0 or g0.eq0(v):
                    return False, "behind an empty %s the second range is scaled by nothing" % cls
            g2 = g.add(cge(L - 1)).add(cge(G - 1))
            for x in F.conds:
                g2 = g2.add(rebuild_cond(subst(x, m)))
            if infeasible(g2):
                continue
            v = simplify(subst(to2[-1], m), g2)
            want = f * L
            if v == want or g2.eq0(v - want):
                continue
            if all(atom(i)[0] in ("tok", "arg") for i in all_atoms(v - want)):
                return False, "behind a %s the second range is scaled by %s" % (cls, show(v))
            worst_ = (None, "scaled by %s" % show(v)[:80])
    return worst_


def factor_cells(run):
    """the cells of a range that hold its factor"""
    if not hasattr(run, "fcells"):
        run.fcells = set()
        for f, o, _, oc in run.apply("set_factor", run.state[0][1], [F1], run.state[0][0].add(cge(F1 - 1))) if run.state else ():
            if oc == "ret":
                run.fcells = {q for q, x in o.cells.items() if x == F1}
    return run.fcells


def leafstate(run, cls):
    sc = next(s for s in scenarios(cls) if s.ok)
    if not hasattr(run, "state"):
        run.state = []
        F = Facts(sc.facts)
        for f, o1, _, oc in run.apply("ctor", Obj({}, sc.elems, sc.cnt), sc.args, F):
            if oc == "ret":
                o1.elems, o1.n = dict(sc.elems or {}), sc.cnt
                for f2, o2, _, oc2 in run.apply("set_limit", o1, [L], f):
                    if oc2 == "ret":
                        run.state.append((f2, o2))
    return run.state


def drive(sums, reset, pop, names, streams, F, mem, n):
    """rewind, then pop at most n times -> values"""
    def one(which, fn):
        nonlocal mem, streams
        this = Sig(fn.f).this
        r = Play(fn, sums[which], streams, F, mem, this).run(names)
        if len(r) != 1:
            raise Stuck("%d ways through %s" % (len(r), which))
        c, streams, stores, v, _ = r[0]
        mem = dict(mem)
        for a, _, x in stores:
            off = (a - this).const()
            if off is None:
                raise Stuck("a store outside the object")
            mem[int(off)] = x
        return v
    one("reset", reset)
    got = []
    while len(got) < n:
        v = one("pop", pop)
        got.append(v)
        if v.const() == -1:
            break
    return got, mem, streams


def owners(ctx, unit, byname, names, cells, kids, summ):
    own = {q: p for q, p in cells.items() if p in kids}
    for d, fn in byname.items():
        if not d.startswith("tensor::ProductRange::~ProductRange"):
            continue
        try:
            this = Sig(fn.f).this
            for c in summ(fn):
                left = deletions(c, this)
                if left is None:
                    ctx.unk(fn, "owner", "not followed")
                    continue
                null = nulls(c, this)
                for q in own:
                    k = left.get(q, 0)
                    want = 0 if q in null else 1
                    say(ctx, fn, "owner", k == want or (k == 1), "range at %d deleted %d times" % (q, k))
        except (Stuck, Unknown) as e:
            ctx.unk(fn, "owner", str(e)[:150])


def deletions(c, this):
    out = {}
    for e in c.eff:
        if e[0] == "call" and isinstance(e[1], tuple) and e[1][0] == "virt":
            if not e[1][1].startswith("~"):
                continue
            a = e[2][0].single()
            if not a or a[0] != "ldp" or (a[2] - this).const() is None:
                return None
            q = int((a[2] - this).const())
            out[q] = out.get(q, 0) + 1
        elif e[0] in ("for", "call", "havoc"):
            return None
    return out


def nulls(c, this):
    out = set()
    for x in c.facts.conds:
        if x[0] == "eq":
            a = x[1].single() or (-x[1]).single()
            if a and a[0] == "ldp" and (a[2] - this).const() is not None:
                out.add(int((a[2] - this).const()))
    return out


# ---------------------------------------------------------------- views
EL = r"(double|std::complex<double>)"


def views(ctx, names, pcells):
    pre = watching(names)
    n = 0
    for fn in ctx.fns("vec", ["src/tensor/tensor_d.cc", "src/tensor/tensor_z.cc"]):
        m = re.match(r"^tensor::Tensor<" + EL + r">::(.*)$", fn.dem)
        if not m:
            continue
        es = 16 if "complex" in m.group(1) else 8
        t = m.group(2)
        h = None
        if re.match(r"(at|operator\(\))\(tensor::PRange", t):
            h = lambda w, cs: maker(ctx, fn, w, cs, t.startswith("at"), t.count("tensor::PRange"), names, pcells)
        elif t.startswith("view::operator tensor::Tensor"):
            h = lambda w, cs: reading(ctx, fn, w, cs, es, names)
        elif t.startswith("mutable_view::operator=("):
            h = lambda w, cs: writing(ctx, fn, w, cs, es, names)
        elif re.match(r"(mutable_)?view::~", t):
            h = lambda w, cs: closing(ctx, fn, w, cs)
        if h is None:
            continue
        n += 1
        w, cs, err = ctx.summary(fn, None, preset=pre, key="watch")
        if cs is None:
            ctx.unk(fn, "view", err)
            continue
        try:
            h(w, [c for c in cs if c.outcome == "ret" and not infeasible(c.facts)])
        except Stale as e:
            ctx.bad(fn, "copy", str(e))
        except (Stuck, Unknown) as e:
            ctx.unk(fn, "view", str(e)[:200])
    if n < 24:
        raise AnalysisError("only %d functions of tensor views found" % n)


def maker(ctx, fn, w, cs, mutable, k, names, pcells):
    sig = Sig(fn.f)
    this, ret = sig.this, sig.sret
    rs = [a.v for a in sig.args]
    for c in cs:
        F = c.facts
        cst = CState(w, c)
        lim, siz, prods, pos = {}, {}, {}, {}
        bad = []
        for n, e in enumerate(c.eff):
            if e[0] == "for" or e[0] == "call" and isinstance(e[1], tuple) and e[1][0] == "indirect":
                raise Stuck("not straight-line")
            if e[0] != "call":
                continue
            if isinstance(e[1], tuple) and e[1][0] == "virt":
                if e[1][1] == "set_limit" and e[2][0] in rs:
                    lim.setdefault(e[2][0], []).append((n, e[2][1]))
                elif e[1][1] == "size" and e[2][0] in rs:
                    siz[P.a("res", e[5])] = (n, e[2][0])
                else:
                    raise Stuck("virtual call of %s" % e[1][1])
            elif isinstance(e[1], str) and e[1].startswith("tensor::product("):
                prods[P.a("callp", e[5])] = (n, e[2][0], e[2][1])
            else:
                raise Stuck("call of " + show(e[1])[:60])
        dimbuf = w.vec(cst, this + 8, 8)
        data = w.vec(cst, this, 8)
        if k >= 2 and not F.eq0(dimbuf.size - k):
            bad.append("a tensor with another number of dimensions is accepted")
        for j, r in enumerate(rs):
            x = lim.get(r)
            if not x:
                bad.append("range %d is never limited" % (j + 1))
                continue
            v = x[-1][1]
            if k == 1:
                want = [data.size, P.a("vsize", this)]
            else:
                want = [P.a("ld", "i64", P.a("buf", this + 8) + 8 * j)]
            if v not in want and not any(F.eq0(v - q) for q in want):
                a = v.single()
                known = a and (a[0] == "vsize" or a[0] == "ld")
                if known or v.const() is not None:
                    bad.append("range %d is limited by %s" % (j + 1, show(v)[:60]))
                else:
                    raise Stuck("limit " + show(v)[:80])
        # extents
        dv = c.vecs.get(ret + 8)
        if dv is None or dv.size.const() is None:
            raise Stuck("extents of the view")
        if dv.size.const() != k:
            bad.append("the view has %s dimensions" % dv.size.const())
        else:
            for j, r in enumerate(rs):
                x = w.lookup(cst, dv.buf + 8 * j, 8, "i64", len(c.eff))
                if x not in siz:
                    if x.single() and x.single()[0] in ("uninit", "ld") or x.const() is not None:
                        bad.append("extent %d of the view is %s" % (j + 1, show(x)[:60]))
                        continue
                    raise Stuck("extent " + show(x)[:80])
                if siz[x][1] != r:
                    bad.append("extent %d of the view is the size of range %d" % (j + 1, rs.index(siz[x][1]) + 1))
                elif r in lim and siz[x][0] < lim[r][-1][0]:
                    bad.append("the size of range %d is taken before it is limited" % (j + 1))
        # what is viewed
        if mutable:
            d = w.lookup(cst, ret, 8, "ptr", len(c.eff))
            if d != this:
                bad.append("the view writes to %s" % show(d)[:60])
        else:
            src = [e[2] for e in c.eff if e[0] == "vcopy" and e[4] == ret]
            x = c.vecs.get(ret)
            if not src and (x is None or x.buf != P.a("buf", this)):
                raise Stuck("the data of the view")
            if src and src[-1] != P.a("buf", this):
                bad.append("the view reads %s" % show(src[-1])[:60])
        # the ranges in order
        rg = w.lookup(cst, ret + 16, 8, "ptr", len(c.eff))
        order = []

        def walk_(x, scale):
            """scale: set of ranges whose extents multiply"""
            if x in prods:
                n, a, b = prods[x]
                for q in leaves_(a) + leaves_(b):
                    if q in lim and lim[q][-1][0] > n:
                        bad.append("range %d is limited after it was combined" % (rs.index(q) + 1))
                walk_(a, scale)
                walk_(b, scale + ([a] if a in rs else ["?"]))
            elif x in rs:
                order.append((x, scale))
            else:
                raise Stuck("ranges " + show(x)[:80])

        def leaves_(x):
            return [x] if x in rs else leaves_(prods[x][1]) + leaves_(prods[x][2]) if x in prods else []
        walk_(rg, [])
        if sorted(rs.index(x) for x, _ in order) != list(range(k)):
            bad.append("the ranges combined are %s" % [rs.index(x) + 1 for x, _ in order])
        else:
            for x, sc in order:
                j = rs.index(x)
                if "?" in sc:
                    if pcells.get(16, ONE).const() == 0:
                        bad.append("a product of ranges, which has no extent, comes before range %d" % (j + 1))
                    else:
                        raise Stuck("nested products")
                elif sorted(rs.index(q) for q in sc) != list(range(j)):
                    bad.append("range %d is scaled by the extents of %s" % (j + 1, [rs.index(q) + 1 for q in sc]))
        for b in bad[:2]:
            ctx.bad(fn, "view", b)
        if not bad:
            ctx.ok(fn, "view", "%d ranges" % k)


def streams_for(c_vals, this_offs):
    return None


def reading(ctx, fn, w, cs, es, names):
    sig = Sig(fn.f)
    this, ret = sig.this, sig.sret
    RP = P.a("ldp", "ptr", this + 16)
    for n in range(4):
        xs = [T("x", i) for i in range(n)]
        F = Facts([cge(q) for q in xs])
        res = Play(fn, cs, {RP: Stream(xs)}, F).run(names)
        if len(res) != 1:
            raise Stuck("%d ways through for %d positions" % (len(res), n))
        c, ss, stores, _, log = res[0]
        v = c.vecs.get(ret)
        if v is None:
            raise Stuck("result")
        want = {}
        for i, x in enumerate(xs):
            for q in range(0, es, 8):
                want[v.buf + i * es + q] = ld(P.a("buf", this) + x.scale(es) + q)
        if not check_stores(ctx, fn, stores, want, v.buf, "reading a view of %d elements" % n):
            return
        src = [e for e in log if e[0] == "vcopy" and e[4] == ret + 8]
        if not src or src[-1][2] != P.a("buf", this + 8):
            raise Stuck("extents of the result")
        tot = P.a("total", ("vec", P.a("buf", this + 8)))
        if v.size != tot:
            raise Stuck("number of elements of the result")
    ctx.ok(fn, "copy", "views of 0 to 3 elements, the loop carries nothing but its position")


def check_stores(ctx, fn, stores, want, buf, what):
    got = {}
    want = {a: plain(x) for a, x in want.items()}
    for a, sz, x in stores:
        x = plain(x)
        if a in got and got[a] != x:
            raise Stuck("stores twice")
        got[a] = x
    for a, x in want.items():
        if a not in got:
            if all(recog(q) for q in got):
                ctx.bad(fn, "copy", "%s: nothing is stored at %s" % (what, show(a)[:60]))
                return False
            raise Stuck("stores at " + str([show(q)[:60] for q in got][:3]))
        if got[a] != x:
            if recog(got[a]):
                ctx.bad(fn, "copy", "%s: %s is stored for %s" % (what, show(got[a])[:60], show(x)[:60]))
                return False
            raise Stuck("stores %s" % show(got[a])[:100])
    for a in got:
        if a not in want:
            if recog(a):
                ctx.bad(fn, "copy", "%s: also stores at %s" % (what, show(a)[:60]))
                return False
            raise Stuck("also stores at " + show(a)[:100])
    return True


def plain(x):
    """element cells moved as integers are the same cells"""
    if not isinstance(x, P):
        return x
    return subst(x, {i: P.a("ld", "double", atom(i)[2]) for i in x.atoms() if atom(i)[0] == "ld" and atom(i)[1] != "double"})


def recog(x):
    """made of nothing but symbols, arguments and the cells they address"""
    return isinstance(x, P) and all(atom(i)[0] in ("tok", "arg", "argp", "ld", "ldp", "buf", "vsize") for i in all_atoms(x))


def writing(ctx, fn, w, cs, es, names):
    sig = Sig(fn.f)
    this = sig.this
    RP = P.a("ldp", "ptr", this + 16)
    dst = P.a("buf", P.a("ldp", "ptr", this))
    ty = sig.args[0].ty
    kind = "view" if "::view" in ty else "tensor" if "Tensor<" in ty else "value"
    a0 = sig.args[0].v
    for n in range(4):
        xs, ys = [T("x", i) for i in range(n)], [T("y", i) for i in range(n)]
        F = Facts([cge(q) for q in xs + ys])
        streams = {RP: Stream(xs)}
        if kind == "view":
            streams[P.a("ldp", "ptr", a0 + 16)] = Stream(ys)
        res = Play(fn, cs, streams, F).run(names)
        if len(res) != 1:
            raise Stuck("%d ways through for %d positions" % (len(res), n))
        c, ss, stores, _, log = res[0]
        want = {}
        for i, x in enumerate(xs):
            for q in range(0, es, 8):
                if kind == "value":
                    v = sig.args[0].vals[q // 8]
                elif kind == "tensor":
                    v = ld(P.a("buf", a0) + i * es + q)
                else:
                    v = ld(P.a("buf", a0) + ys[i].scale(es) + q)
                want[dst + x.scale(es) + q] = v
        if not check_stores(ctx, fn, stores, want, dst, "assigning a %s to a view of %d elements" % (kind, n)):
            return
        if kind != "value":
            tot = lambda p: P.a("total", ("vec", P.a("buf", p + 8)))
            if not c.facts.eq0(tot(this) - tot(a0)):
                ctx.bad(fn, "copy", "a %s with another number of elements is accepted" % kind)
                return
    ctx.ok(fn, "copy", "views of 0 to 3 elements, the loop carries nothing but its position")
    if kind == "tensor":
        itself(ctx, fn, es, names, this, a0, RP)


def itself(ctx, fn, es, names, this, a0, RP):
    """the tensor assigned is the one the view belongs to"""
    pre = watching(names)

    def preset(w, st):
        pre(w, st)
        st.eff.append(("st", this, 8, a0, None, "ptr"))
    w, cs, err = ctx.summary(fn, None, preset=preset, key="itself")
    if cs is None:
        raise Stuck(err)
    cs = [c for c in cs if c.outcome == "ret" and not infeasible(c.facts)]
    buf = P.a("buf", a0)
    for order in ([1, 0], [2, 0, 1]):
        res = Play(fn, cs, {RP: Stream([P.c(x) for x in order])}, Facts(), back=True).run(names)
        if len(res) != 1:
            raise Stuck("%d ways through" % len(res))
        c, ss, stores, _, log = res[0]
        got = {}
        for a, _, x in stores:
            got[a] = plain(x)
        for i, x in enumerate(order):
            for q in range(0, es, 8):
                v = got.get(buf + x * es + q)
                want = plain(ld(buf + i * es + q))
                if v is None or not recog(v):
                    raise Stuck("assigned to a view of itself: " + (show(v)[:80] if v is not None else "nothing"))
                if v != want:
                    ctx.bad(fn, "copy", "a tensor assigned to a view of itself is read while it is overwritten")
                    return
    ctx.ok(fn, "copy", "a tensor assigned to a view of itself")


def closing(ctx, fn, w, cs):
    this = Sig(fn.f).this
    for c in cs:
        d = deletions(c, this)
        if d is None:
            raise Stuck("destructor")
        k = d.get(16, 0)
        null = 16 in nulls(c, this)
        say(ctx, fn, "owner", k == 1 or null and k == 0, "its ranges are deleted %d times" % k)


# ---------------------------------------------------------------- range()
def make(ctx):
    want = {"range()": ("FullRange", lambda a: []),
            "range(long)": ("SingleRange", lambda a: [a[0]]),
            "range(long, long)": ("StepRange", lambda a: [a[0], a[1], ONE]),
            "range(long, long, long)": ("StepRange", lambda a: list(a[:3]))}
    seen = set()
    for fn in ctx.fns("vec", [os.path.join(VERIF, "probe", "ops.cc")]):
        if not fn.dem.startswith("tensor::range(") or fn.dem in seen:
            continue
        k = fn.dem[len("tensor::"):]
        if k not in want and "Indices" not in k:
            continue
        seen.add(fn.dem)
        w, cs, err = ctx.summary(fn)
        if cs is None:
            ctx.unk(fn, "make", err)
            continue
        sig = Sig(fn.f)
        for c in cs:
            if c.outcome != "ret":
                continue
            calls = [e for e in c.eff if e[0] == "call" and isinstance(e[1], str)]
            ct = [e for e in calls if re.match(r"tensor::(\w+Range)::\1\(", e[1])]
            heap = [e for e in c.eff if e[0] == "alloc"]
            if len(ct) != 1 or len(heap) != 1 or ct[0][2][0] != heap[0][1] or c.ret != heap[0][1]:
                ctx.unk(fn, "make", "construction not recognised")
                continue
            cls = re.match(r"tensor::(\w+)", ct[0][1]).group(1)
            if k in want:
                cw, aw = want[k]
                args = aw([a.v for a in sig.args])
                say(ctx, fn, "make", cls == cw and ct[0][2][1:] == args, "%s(%s)" % (cls, ", ".join(show(x)[:30] for x in ct[0][2][1:])))
            else:
                say(ctx, fn, "make", cls == "IndexRange", cls)
    if not seen:
        raise AnalysisError("range() is not found")
