"""Comparisons, boolean vectors and whole-container equality."""
from framework import *

PROBE = os.path.join(VERIF, "probe", "ops.cc")
REL = {"==": "=", "<": "<", ">": ">", "<=": "<=", ">=": ">=", "!=": "<>u"}
MIRROR = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
FP = {"==": "oeq", "<": "olt", ">": "ogt", "<=": "ole", ">=": "oge", "!=": "une"}


def cmp_cond(op, a, b, integer):
    if integer:
        x, y = a[0], b[0]
        return {"==": ceq(x - y), "!=": cne(x - y), "<": cge(y - x - 1), ">": cge(x - y - 1), "<=": cge(y - x), ">=": cge(x - y)}[op]
    if a[1].t or b[1].t or op in ("==", "!="):
        parts = [cf("oeq", a[0], b[0])]
        if a[1].t or b[1].t:
            parts.append(cf("oeq", a[1], b[1]))
        return cand(parts) if op == "==" else cnot(cand(parts))
    return cf(FP[op], a[0], b[0])


class Ind:
    """an Indices / Booleans argument"""

    def __init__(self, addr, es, ty):
        self.addr, self.es = addr, es
        self.buf, self.size = P.a("buf", addr), P.a("vsize", addr)
        self.ty = ty

    def val(self, i):
        return (ld(self.buf + i.scale(self.es), self.ty), ZERO)


def operand(a):
    t = tensor_arg(a)
    if t:
        return ("t", t)
    ty = a.ty.replace(" const&", "").strip()
    if ty == "tensor::Indices":
        return ("i", Ind(a.v, 8, "i64"))
    if ty == "tensor::Booleans":
        return ("b", Ind(a.v, 1, "i8"))
    ref = a.ty.endswith("&")
    if ty == "double":
        return ("s", (ld(a.v) if ref else a.v, ZERO))
    if ty == "long":
        return ("s", (ld(a.v, "i64") if ref else a.v, ZERO))
    if ty == "std::complex<double>":
        return ("s", (ld(a.v), ld(a.v + 8)) if ref else tuple(a.vals))
    return None


def bit(x):
    return ("bool", P.a("bitand", x, ONE))


def run(ctx):
    ctx.rule("comparison", "element i of the result is the IEEE/integer relation a[i] OP b[i] (scalars broadcast), one element per operand element")
    ctx.rule("scalar first", "s OP t forwards to t MIRROR(OP) s")
    ctx.rule("size guard", "operands of different length never reach a normal return")
    ctx.rule("whole equality", "all_equal is true exactly when extents match and every element compares equal")
    ctx.rule("boolean algebra", "!, &&, || act elementwise on boolean vectors of equal length")
    ctx.rule("quantifier", "all_of / any_of / none_of / some_unequal are the exact quantifiers; which lists the positions of true elements in order")
    fns = {f.dem: f for f in ctx.get(r"^tensor::(operator(==|!=|<|>|<=|>=|!|&&|\|\|)\(|all_equal\(|all_of\(|any_of\(|which\()")}
    for f in ctx.get(r"^tensor::(operator(==|!=|<|>|<=|>=)\(|all_equal\((double|std::complex<double>),|none_of\(|some_unequal\()", srcs=[PROBE]):
        fns.setdefault(f.dem, f)
    nc = 0
    for fn in fns.values():
        m = re.match(r"^tensor::operator(==|!=|<=|>=|<|>|!|&&|\|\|)\(", fn.dem)
        ops = [operand(a) for a in fn.sig.args]
        if None in ops or not fn.sig.ok:
            continue
        if m and m.group(1) in REL:
            nc += 1
            comparison(ctx, fn, m.group(1), ops)
        elif m:
            boolean(ctx, fn, m.group(1), ops)
        elif fn.dem.startswith("tensor::all_equal("):
            alleq(ctx, fn, ops)
        elif fn.dem.startswith(("tensor::all_of(", "tensor::any_of(")):
            quant(ctx, fn, ops, fn.dem.startswith("tensor::all_of("))
        elif fn.dem.startswith("tensor::none_of("):
            forward(ctx, fn, "quantifier", r"^tensor::any_of\(", [0], neg=True)
        elif fn.dem.startswith("tensor::some_unequal("):
            forward(ctx, fn, "quantifier", r"^tensor::all_equal\(", [0, 1], neg=True)
        elif fn.dem.startswith("tensor::which("):
            which(ctx, fn, ops)
    for fn in ctx.get(r"^probe::same_vectors\(", srcs=[os.path.join(VERIF, "probe", "ops.cc")]):
        alleq(ctx, fn, [("i", Ind(a.v, 8, "i64")) for a in fn.sig.args])
    if nc < 40:
        raise AnalysisError("only %d comparison operators found" % nc)


def forward(ctx, fn, rule, callee, order, neg=False):
    """the function returns exactly what `callee` returns for its arguments in the given order"""
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, rule, err)
    rets = [c for c in cases if c.outcome == "ret"]
    if len(rets) != 1:
        return ctx.unk(fn, rule, "%d return cases" % len(rets))
    c = rets[0]
    got = c.ret
    # boolean atoms of modelled predicates
    if isinstance(got, tuple) and got[0] in ("bool", "nbool"):
        a = got[1].single()
        if a and a[0] == "dimseq" and "all_equal" in callee:
            return ctx.verdict(fn, rule, PROVED if (got[0] == "nbool") == neg else REFUTED, "returns %s" % show(got), c.loc)
    calls = [e for e in c.eff if e[0] == "call" and re.search(callee, e[1])]
    if len(calls) != 1:
        return ctx.unk(fn, rule, "no single forwarding call")
    args = [show(x) if isinstance(x, (P, tuple)) else "?" for x in calls[0][2]]
    want = [show(fn.sig.args[k].v) for k in order]
    if args != want:
        return ctx.unk(fn, rule, "arguments %s" % args)
    if isinstance(got, tuple) and got[0] in ("bool", "nbool") and got[1] == P.a("res", calls[0][5]):
        ctx.verdict(fn, rule, PROVED if (got[0] == "nbool") == neg else REFUTED, "returns the %snegated result of %s" % ("" if got[0] == "nbool" else "un", calls[0][1]), c.loc)
    else:
        ctx.unk(fn, rule, "result %s" % show(got)[:80])


def comparison(ctx, fn, op, ops):
    integer = any(o[0] == "i" for o in ops)
    cont = [o[1] for o in ops if o[0] in "ti"]
    if not cont:
        return
    main = cont[0]
    rule = "comparison"
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, rule, err)
    # forwarding form
    if ops[0][0] == "s":
        rets = [c for c in cases if c.outcome == "ret"]
        if len(rets) == 1:
            calls = [e for e in rets[0].eff if e[0] == "call"]
            if len(calls) == 1:
                m = re.match(r"^tensor::operator(==|!=|<=|>=|<|>)\((.*)\)$", calls[0][1])
                if m:
                    ps = split_params(calls[0][1])
                    args = list(calls[0][2])
                    if fn.sig.sret is not None and args and args[0] == fn.sig.sret:
                        args = args[1:]
                    # container first
                    if len(ps) == 2 and "<" in ps[0] + "<" and args and args[0] == fn.sig.args[1].v:
                        svals = args[1:]
                        want = fn.sig.args[0].vals
                        if svals == want or same_scalar(w, rets[0], svals, want):
                            v = PROVED if m.group(1) == MIRROR[op] else REFUTED
                            return ctx.verdict(fn, "scalar first", v, "s %s t is evaluated as t %s s" % (op, m.group(1)), rets[0].loc)
                    return ctx.unk(fn, "scalar first", "forwards to %s" % calls[0][1])
    res = []
    tens = [t for t in cont if isinstance(t, Ten)]
    guard = PROVED
    for c in cases:
        if c.outcome != "ret":
            continue
        F = facts_with_dims(c.facts, tens)
        if len(cont) == 2:
            if not F.eq0(cont[0].size - cont[1].size):
                guard = REFUTED
            F = F.add(ceq(cont[0].size - cont[1].size))

        def val(i):
            vs = [o[1].val(i) if o[0] in "ti" else o[1] for o in ops]
            k = cmp_cond(op, vs[0], vs[1], integer)
            return [((k,), ONE), ((cnot(k),), ZERO)]
        res += result_verdict(w, c, fn.sig.sret, "bool", None, main.size, [SPiece([main.size], val)], F)
    x = worst(res)
    ctx.verdict(fn, rule, x[1], "%s: %s" % (x[0], x[2]), x[3])
    if len(cont) == 2:
        ctx.verdict(fn, "size guard", guard, "" if guard == PROVED else "returns normally with operands of %s and %s elements" % (show(cont[0].size), show(cont[1].size)))


def same_scalar(w, c, got, want):
    cs = CState(w, c)
    try:
        if len(got) == 1 and isinstance(got[0], P) and len(want) == 2:
            return [w.lookup(cs, got[0] + 8 * k, 8, "double", len(cs.eff)) for k in range(2)] == list(want)
    except Unknown:
        pass
    return False


def boolean(ctx, fn, op, ops):
    rule = "boolean algebra"
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, rule, err)
    res = []
    for c in cases:
        if c.outcome != "ret":
            continue
        F = c.facts
        if len(ops) == 2:
            if not F.eq0(ops[0][1].size - ops[1][1].size):
                res.append(("size guard", REFUTED, "returns normally with operands of different length", c.loc))
                F = F.add(ceq(ops[0][1].size - ops[1][1].size))

        def val(i):
            a = [bit(o[1].val(i)[0]) for o in ops]
            k = cnot(a[0]) if op == "!" else (cand(a) if op == "&&" else cor(a))
            return [((k,), ONE), ((cnot(k),), ZERO)]
        res += result_verdict(w, c, fn.sig.sret, "bool", None, ops[0][1].size, [SPiece([ops[0][1].size], val)], F)
    x = worst(res)
    ctx.verdict(fn, rule, x[1], "%s: %s" % (x[0], x[2]), x[3])


# ------------------------------------------------------------------ quantified results
def alls(F):
    return [c for c in F.conds if c[0] == "all"]


def inst(c, k):
    """body of ('all',T,cond,lv) at index k"""
    return rebuild_cond(subst(c[2], {atom_id(("bv", c[3])): k}))


def truth(ret, F):
    """True/False/condition for a returned boolean"""
    if isinstance(ret, tuple):
        if ret[0] == "T":
            return True
        if ret[0] == "F":
            return False
        d = F.decide(ret)
        return d if d is not None else ret
    if isinstance(ret, P):
        k = ret.const()
        if k is not None:
            return k != 0
        return ("bool", ret)
    return None


def equiv(c, d, F=None):
    F = F or Facts()
    if c == d:
        return True
    a = consistent([c, cnot(d)], F)
    b = consistent([cnot(c), d], F)
    if a is False and b is False:
        return True
    if a and b or a and b is False or b and a is False:
        return False
    return None


def quantified(ctx, fn, rule, n, pred, guard=(), unguard=()):
    """returns true iff guard and pred(i) for all i<n"""
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, rule, err)
    verdicts = []
    for c in cases:
        if c.outcome != "ret":
            continue
        F = c.facts
        r = truth(c.ret, F)
        branches = [(F, r)]
        if not isinstance(r, bool):
            branches = [(F.add(r), True), (F.add(cnot(r)), False)] if r is not None else []
        for G, val in branches:
            verdicts.append(judge(G, val, n, pred, guard) + (c.loc,))
    if not verdicts:
        return ctx.unk(fn, rule, "no return case")
    x = worst([("", v, d, l) for v, d, l in verdicts])
    ctx.verdict(fn, rule, x[1], x[2], x[3])


def lost_facts(F):
    return any(lost(c) or any(atom(i)[0] in ("res", "kx?") for i in all_atoms(c)) for c in F.conds)


def judge(F, val, n, pred, guard):
    conds = list(F.conds)
    negated = [g for g in guard if cnot(g) in conds or F.decide(g) is False]
    if val:
        if negated:
            return REFUTED, "returns true although %s fails" % show(negated[0])
        miss = [g for g in guard if g not in conds and F.decide(g) is not True]
        # memcmp / count forms
        for c in conds:
            if c[0] == "eq":
                for cc in eqforms(c[1], n, pred, F):
                    if cc:
                        if miss:
                            return REFUTED, "returns true without checking %s" % show(miss[0])
                        return PROVED, ""
        for c in alls(F):
            if F.eq0(c[1] - n):
                k = fresh("iv", "q")
                e = equiv(inst(c, k), pred(k), Facts())
                if e is True:
                    if miss:
                        return REFUTED, "returns true without checking %s" % show(miss[0])
                    return PROVED, ""
                if e is False and not lost(c):
                    return REFUTED, "returns true when for every element %s instead of %s" % (show(inst(c, k))[:120], show(pred(k))[:120])
                return UNK, "element test not matched"
            elif not lost(c) and not any(atom(i)[0] == "kx" for i in all_atoms(c[1])):
                d = red(F, c[1] - n)
                if d.const() is not None:
                    return REFUTED, "tests %s elements instead of %s" % (show(c[1]), show(n))
        if F.eq0(n):
            return (PROVED, "") if not miss else (UNK, "guard")
        if miss and any(atom(i)[0] in ("res",) for g in conds for i in all_atoms(g)):
            return UNK, "returns true under unresolved tests"
        if lost_facts(F):
            return UNK, "returns true under unresolved tests"
        return REFUTED, "returns true without testing the elements (facts: %s)" % show(conds)[:200]
    if negated:
        return PROVED, ""
    for c in conds:
        if c[0] == "ne":
            for cc in eqforms(c[1], n, pred, F):
                if cc:
                    return PROVED, ""
    # a witness index
    wit = set()
    for c in conds:
        for i in all_atoms(c):
            if atom(i)[0] == "kx":
                wit.add(i)
    for i in wit:
        k = P({(i,): 1})
        p = pred(k)
        at = [c for c in conds if c[0] not in ("all",) and i in all_atoms(c)]
        if consistent(at + [p], Facts()) is False:
            return PROVED, ""
    if lost_facts(F):
        return UNK, "returns false under unresolved tests"
    if not wit and not alls(F):
        return REFUTED, "returns false without a failing element (facts: %s)" % show(conds)[:200]
    for i in wit:
        at = [c for c in conds if c[0] not in ("all",) and i in all_atoms(c) and c[0] in ("f", "bool", "nbool")]
        if at:
            return REFUTED, "returns false because %s" % show(at)[:200]
    return UNK, "returns false: no witness recognised"


def eqforms(p, n, pred, F):
    """conditions p==0 equivalent to the universal statement"""
    for i in p.atoms():
        a = atom(i)
        if a[0] == "memcmp" and p == P({(i,): 1}):
            k = fresh("iv", "q")
            x, y = ld(a[1] + k.scale(8), "i64"), ld(a[2] + k.scale(8), "i64")
            if F.eq0(a[3] - n.scale(8)) and equiv(ceq(x - y), pred(k)) is True:
                yield True
        if a[0] == "sum" and F.eq0(p - n + P({(i,): 1})) or a[0] == "sum" and F.eq0(-p - n + P({(i,): 1})):
            T, body, kid = walk.unbind(a)
            b = body.single()
            if b and b[0] == "b2i" and F.eq0(T - n):
                k = P({(kid,): 1})
                if equiv(b[1], pred(k)) is True:
                    yield True
    yield False


def alleq(ctx, fn, ops):
    rule = "whole equality"
    if ops[0][0] == "s":
        w, cases, err = ctx.summary(fn)
        c = [c for c in (cases or []) if c.outcome == "ret"]
        if len(c) == 1:
            calls = [e for e in c[0].eff if e[0] == "call" and e[1].startswith("tensor::all_equal(")]
            if len(calls) == 1 and calls[0][2][0] == fn.sig.args[1].v and (calls[0][2][1:] == fn.sig.args[0].vals or same_scalar(w, c[0], calls[0][2][1:], fn.sig.args[0].vals)):
                r = c[0].ret
                if r == ("bool", P.a("res", calls[0][5])):
                    return ctx.ok(fn, rule)
                if r == ("nbool", P.a("res", calls[0][5])):
                    return ctx.bad(fn, rule, "returns the negated comparison", c[0].loc)
        return ctx.unk(fn, rule, "forwarding form not recognised")
    a, b = ops[0][1], ops[1]
    integer = ops[0][0] == "i"

    def pred(k):
        return cmp_cond("==", a.val(k), b[1].val(k) if b[0] in "ti" else b[1], integer)
    guard = []
    if b[0] == "t":
        x, y = sorted((("vec", P.a("buf", a.addr + 8)), ("vec", P.a("buf", b[1].addr + 8))), key=repr)
        guard = [("bool", P.a("dimseq", x, y))]
    elif b[0] == "i":
        guard = [ceq(a.size - b[1].size)]
    quantified(ctx, fn, rule, a.size, pred, guard)


def quant(ctx, fn, ops, forall):
    b = ops[0][1]
    if forall:
        quantified(ctx, fn, "quantifier", b.size, lambda k: bit(b.val(k)[0]))
    else:
        # any(b) == not all(not b)
        w, cases, err = ctx.summary(fn)
        if cases is None:
            return ctx.unk(fn, "quantifier", err)
        vs = []
        for c in cases:
            if c.outcome != "ret":
                continue
            r = truth(c.ret, c.facts)
            br = [(c.facts, not r)] if isinstance(r, bool) else ([(c.facts.add(r), False), (c.facts.add(cnot(r)), True)] if r is not None else [])
            for G, v in br:
                vs.append(judge(G, v, b.size, lambda k: cnot(bit(b.val(k)[0])), ()) + (c.loc,))
        x = worst([("", v, d.replace("returns true", "returns FALSE").replace("returns false", "returns true").replace("FALSE", "false"), l) for v, d, l in vs])
        ctx.verdict(fn, "quantifier", x[1], x[2], x[3])


def which(ctx, fn, ops):
    b = ops[0][1]
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, "quantifier", err)
    for c in cases:
        if c.outcome != "ret":
            continue
        cs = CState(w, c)
        vec = w.vec(cs, fn.sig.sret, 8)
        k = fresh("iv", "q")
        kid = list(k.atoms())[0]
        cnt = walk.mksum(walk.mkb2i(bit(b.val(k)[0])), kid, b.size)
        if vec.size != cnt:
            if lost(vec.size):
                return ctx.unk(fn, "quantifier", "size " + show(vec.size)[:100])
            return ctx.bad(fn, "quantifier", "result holds %s positions instead of the number of true elements" % show(vec.size)[:160], c.loc)
        try:
            ps = contents(cs, vec.buf, vec.size, 8)
        except Lost as e:
            return ctx.unk(fn, "quantifier", str(e))
        if len(ps) != 1 or len(ps[0].loops) != 1 or len(ps[0].alts) != 1:
            return ctx.unk(fn, "quantifier", "write structure")
        p = ps[0]
        q = P({(p.loops[0][0],): 1})
        g, v = p.alts[0]
        up = walk.mksum_upto(None, None, None) if False else None
        pre = walk.mksum(walk.mkb2i(bit(b.val(k)[0])), kid, q)
        okg = g == (bit(b.val(q)[0]),)
        okv = v == q
        okp = p.off == pre.scale(8)
        okT = c.facts.eq0(p.loops[0][1] - b.size)
        if okg and okv and okp and okT:
            return ctx.ok(fn, "quantifier")
        if lost(p.off) or lost(v) or any(lost(x) for x in g):
            return ctx.unk(fn, "quantifier", "unresolved")
        if okg and okp and okT and not okv:
            return ctx.bad(fn, "quantifier", "records %s for position i" % show(v), p.loc)
        return ctx.unk(fn, "quantifier", "shape not matched: %r" % p)
