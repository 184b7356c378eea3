"""Index ranges: composition of member-function summaries into the life of an object, and protocols between objects
that know one another only through virtual calls.

Obj      the cells of one object (offset -> form) plus the elements of one index list it owns; `apply` runs one member
         function's summary over it and returns every way it can end.
play     the summary of a function that consumes ranges, over ranges given as finite lists of symbols: each virtual call is
         answered from the lists, so the result is a sequence of stores and results in terms of the symbols.
"""
from framework import *
from spec import *


class Stuck(Exception):
    pass


def slots(unit):
    """vtable offset -> member name, from the base class' table"""
    for g in unit.j["globals"]:
        if g[1] == "vtable for tensor::Range" and len(g) > 4 and g[2]:
            t = g[4][1][1:] if g[4][1][0] == "cagg" else None
            out = {}
            for k, e in enumerate(t[2:]):
                if e[0] == "fn":
                    d = unit.dem(e[1])
                    m = re.search(r"::(~?\w+)\(", d)
                    out[8 * k] = m.group(1) if m else d
            return out
    return None


def table(unit, cls):
    """member name -> mangled name of the function a virtual call on this class reaches"""
    for g in unit.j["globals"]:
        if g[1] == "vtable for tensor::" + cls and len(g) > 4 and g[4][1][0] == "cagg":
            out = {}
            for k, e in enumerate(g[4][1][3:]):
                if e[0] == "fn":
                    m = re.search(r"::(~?\w+)\(", unit.dem(e[1]))
                    out[(m.group(1), 8 * k)] = e[1]
            return out
    return None


def callee(f):
    """(object, slot offset) of a virtual call's target"""
    s = f.single() if isinstance(f, P) else None
    if not s or s[0] != "ldp":
        return None
    b, off = base_of(s[2])
    k = off.const() if isinstance(off, P) else None
    a = atom(b) if b is not None else None
    if a is None or a[0] != "ldp" or k is None:
        return None
    return a[2], int(k)


def watching(names):
    """preset: virtual calls become events ("virt", name) that leave the caller's memory alone"""
    def virt(w, st, i, f):
        r = callee(f)
        if r is None:
            return None
        args = [w.val(st, x) for x in i["ops"]]
        if not args or args[0] != r[0]:
            return None
        nm = names.get(r[1])
        if nm is None:
            return None
        rid = P.a("evt", "virt " + nm, tuple(args), w.seq(st))
        st.eff.append(("call", ("virt", nm), args, i.get("loc"), i["id"], rid))
        if "ty" in i:
            st.env[i["id"]] = w.result(i["ty"], rid)
        return True

    def preset(w, st):
        w.virt = virt
    return preset


def resolved(unit, cls, names):
    """preset: virtual calls on the object itself go to its own class"""
    tab = table(unit, cls) or {}
    byoff = {k[1]: v for k, v in tab.items()}

    def virt(w, st, i, f):
        r = callee(f)
        if r is None or w.val(st, i["ops"][0]) != r[0]:
            return None
        sg = Sig(w.fn)
        if r[0] != sg.this:
            return None
        return byoff.get(r[1])

    def preset(w, st):
        w.virt = virt
    return preset


# ---------------------------------------------------------------- life of one object
class Obj:
    def __init__(self, cells, elems=None, n=None):
        self.cells, self.elems, self.n = dict(cells), dict(elems or {}), n

    def clone(self):
        return Obj(self.cells, self.elems, self.n)


def leafs(x):
    return [(i, atom(i)) for i in all_atoms(x)]


class Runner:
    """member functions of one class, by name"""

    def __init__(self, ctx, unit, cls, fns, names):
        self.ctx, self.unit, self.cls, self.fns, self.names = ctx, unit, cls, fns, names

    def cases(self, name):
        fn = self.fns.get(name)
        if fn is None:
            raise Stuck("no member function " + name)
        w, cs, err = self.ctx.summary(fn, VModels(self), preset=resolved(self.unit, self.cls, self.names), key="ranges")
        if cs is None:
            raise Stuck(err)
        return fn, w, cs

    def apply(self, name, obj, args, F, sub=None):
        """-> list of (facts, object, result, outcome)"""
        fn, w, cs = self.cases(name)
        sig = Sig(fn.f)
        this = sig.this
        out = []
        m = dict(sub or {})
        if len(sig.args) != len(args):
            raise Stuck("signature of " + fn.dem)
        for a, v in zip(sig.args, args):
            if v is not None:
                m[list(a.v.atoms())[0]] = v
        for c in cs:
            if c.outcome == "unreachable":
                continue
            self.case(fn, c, obj, this, m, F, out)
        return out

    def case(self, fn, c, obj, this, m0, F, out):
        ks = [i for x in list(c.facts.conds) for i, a in leafs(x) if a[0] == "kx"]
        if ks and obj.n is not None:
            if len(set(ks)) > 1:
                raise Stuck("two loops left early")
            # where the loop was left: some element, or the end
            for q in list(obj.elems) + [obj.n]:
                self.case1(fn, c, obj, this, {**m0, ks[0]: q}, F, out)
            return
        self.case1(fn, c, obj, this, m0, F, out)

    def case1(self, fn, c, obj, this, m0, F, out):
        read = self.reader(obj, this, m0)
        conds = []
        for x in c.facts.conds:
            conds.append(x)
        alts = [(F, obj.clone())]
        for x in conds:
            nxt = []
            for f, o in alts:
                cc = read(x)
                if cc[0] == "all":
                    cc = self.every(x, obj, read, f)
                f = signs(f, cc)
                d = f.decide(cc)
                if d is False:
                    continue
                f2 = f if d else f.add(cc)
                nxt.append((f2, o))
            alts = nxt
        if not alts:
            return
        f, o = alts[0]
        if infeasible(f):
            return
        if c.outcome != "ret":
            out.append((f, None, None, c.outcome))
            return
        states = [(f, o, list(obj.cells.items()))]
        res = [(f, o)]
        for e in c.eff:
            k = e[0]
            nres = []
            for f, o in res:
                if k == "st":
                    a = read(e[1])
                    off = (a - this).const()
                    if off is None:
                        ix = self.index(a, this)
                        if ix is None:
                            raise Stuck("a store outside the object")
                        if not any(f.eq0(q - ix) for q in o.elems):
                            raise Stuck("a store at an unknown index")
                        for q in list(o.elems):
                            if f.eq0(q - ix):
                                o.elems[q] = read(e[3], f)
                    else:
                        o.cells[int(off)] = read(e[3], f)
                    nres.append((f, o))
                elif k == "for":
                    nres += self.loop(e, f, o, obj, this, m0)
                elif k == "vcopy":
                    if (e[4] - this).const() is None:
                        raise Stuck("vcopy")
                    o.listcell = int((e[4] - this).const())
                    nres.append((f, o))
                elif k in ("havoc", "call"):
                    raise Stuck("calls " + show(e[1])[:60])
                else:
                    raise Stuck("effect " + k)
            res = nres
        for f, o in res:
            r = read(c.ret, f) if isinstance(c.ret, P) else c.ret
            out.append((f, o, r, "ret"))

    def index(self, a, this):
        """position in the object's list of an element address"""
        for i in a.atoms():
            t = atom(i)
            if t[0] == "buf":
                r = (a - P({(i,): 1})).scale(Fraction(1, 8))
                if all(x.denominator == 1 for x in r.t.values()):
                    return r
        return None

    def reader(self, obj, this, m0):
        def read(x, f=None, extra=None):
            m = dict(m0)
            if extra:
                m.update(extra)
            for _ in range(8):
                add = {}
                for i, a in leafs(x):
                    if i in m:
                        continue
                    if a[0] in ("ld", "ldp"):
                        off = (a[2] - this).const()
                        if off is not None:
                            if int(off) not in obj.cells:
                                raise Stuck("cell %d is read and was never written" % off)
                            add[i] = obj.cells[int(off)]
                        else:
                            ix = self.index(a[2], this)
                            if ix is not None and obj.elems:
                                for q, v in obj.elems.items():
                                    if q == ix or (f is not None and f.eq0(q - ix)):
                                        add[i] = v
                    elif a[0] == "vsize" and obj.n is not None:
                        add[i] = obj.n
                m.update(add)
                y = subst(x, m)
                if y == x:
                    break
                x = y
            if isinstance(x, tuple):
                x = rebuild_cond(x)
            if f is not None and isinstance(x, P):
                x = simplify(x, f)
            return x
        return read

    def every(self, x, obj, read, f):
        bv = list(P.a("bv", x[3]).atoms())[0]
        cs = []
        end = read(x[1])
        for q in obj.elems:
            if f.ge0(end - q - 1):
                cs.append(read(x[2], None, {bv: q}))
        return cand(cs)

    def loop(self, e, f, o, obj, this, m0):
        _, kid, T, paths = e[:4]
        res = [(f, o)]
        if self.reader(obj, this, m0)(T) != obj.n:
            raise Stuck("a loop over something else than the list")
        for q in obj.elems:
            nres = []
            for f, o in res:
                rest = f
                for cs, ef in paths:
                    cc = cand([self.reader(obj, this, m0)(x, None, {kid: q}) for x in cs])
                    rest = None if rest is None or cc[0] == "T" or rest.decide(cc) else rest.add(cnot(cc))
                if rest is not None and not infeasible(rest):
                    nres.append((rest, o))      # nothing happens to this element
                for cs, ef in paths:
                    rd = self.reader(obj, this, dict(m0, **{}))
                    f2, ok = f, True
                    for cc in cs:
                        cc = rd(cc, None, {kid: q})
                        d = f2.decide(cc)
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            f2 = f2.add(cc)
                    if not ok or infeasible(f2):
                        continue
                    o2 = o.clone()
                    for x in ef:
                        if x[0] != "st":
                            raise Stuck("effect %s in a loop" % x[0])
                        a = rd(x[1], None, {kid: q})
                        ix = self.index(a, this)
                        if ix != q:
                            raise Stuck("a loop that moves elements")
                        o2.elems[q] = rd(x[3], f2, {kid: q})
                    nres.append((f2, o2))
            res = nres
        return res


def signs(F, c):
    """quotients of numbers of the same sign are not negative"""
    for i, a in leafs(c):
        if a[0] == "div" and len(a) == 3:
            x, y = a[1], a[2]
            if (F.ge0(x) and F.ge0(y - 1)) or (F.ge0(-x) and F.ge0(-y - 1)):
                F = F.add(cge(P({(i,): 1})))
    return F


def simplify(x, F):
    """div(x, y) where the division is exact"""
    for _ in range(6):
        m = {}
        for i, a in leafs(x):
            if a[0] == "div":
                r = idiv(a[1], a[2], F)
                if r.single() != a:
                    m[i] = r
        if not m:
            return x
        x = subst(x, m)
    return x


class VModels(Models):
    """the object's own virtual member functions, by their summaries"""

    def __init__(self, run):
        Models.__init__(self)
        self.run = run

    def find(self, d):
        for nm, fn in self.run.fns.items():
            if fn.dem == d and nm in ("size",):
                return lambda w, st, i, dd, a, fn=fn: self.inline(w, st, fn, a)
        return Models.find(self, d)

    def inline(self, w, st, fn, a):
        _, cs, err = self.run.ctx.summary(fn, None, preset=resolved(self.run.unit, self.run.cls, self.run.names), key="inline")
        if cs is None or any(c.outcome != "ret" or c.eff for c in cs):
            from models import Decline
            raise Decline()
        this = Sig(fn.f).this
        alts = []
        for c in cs:
            m = {}
            for x in list(c.facts.conds) + [c.ret]:
                for i, t in leafs(x):
                    if t[0] == "ld":
                        off = (t[2] - this).const()
                        if off is None:
                            from models import Decline
                            raise Decline()
                        m[i] = w.load(st, a[0] + off, "i64", None)
            alts.append(([rebuild_cond(subst(x, m)) for x in c.facts.conds], subst(c.ret, m)))
        return Fork(alts) if len(alts) > 1 else alts[0][1]


# ---------------------------------------------------------------- protocols
class Stream:
    """a range as the list of what its pops will return; before a reset nothing is known about them"""

    def __init__(self, items, size=None):
        self.items, self.size, self.pos = items, size, None

    def clone(self):
        s = Stream(self.items, self.size)
        s.pos = self.pos
        return s


class Play:
    def __init__(self, fn, cases, streams, F, cells=None, this=None, limit=14, back=False):
        self.fn, self.cases, self.F, self.limit = fn, cases, F, limit
        self.streams, self.cells = streams, cells or {}
        self.this = this
        self.junk, self.back = 0, back
        self.done = []

    def run(self, names):
        """-> [(case, streams, stores, result, log)] of the ways consistent with the lists"""
        out = []
        for c in self.cases:
            if c.outcome != "ret":
                continue
            out += self.case(c, names)
        return out

    def case(self, c, names):
        res = [(dict(), {k: v.clone() for k, v in self.streams.items()}, [], [], {})]
        for e in c.eff:
            nres = []
            for r in res:
                nres += self.effect(e, r, c)
            res = nres
        out = []
        for env, ss, stores, log, snaps in res:
            ok = True
            for x in c.facts.conds:
                if x[0] == "all" or not ok:
                    continue
                t = self.truth(x, env, snaps)
                if t is False:
                    ok = False
                elif t is None and any(a[0] in ("evt", "prev", "kx") for _, a in leafs(x)):
                    raise Stuck("undecided: " + show(x)[:160])
            if ok:
                out.append((c, ss, stores, self.val(c.ret, env, snaps) if isinstance(c.ret, P) else c.ret, log))
        return out

    def val(self, x, env, snaps):
        for _ in range(10):
            m = {}
            for i, a in leafs(x):
                if i in env:
                    m[i] = env[i]
                elif a[0] in ("ld", "ldp") and self.this is not None and isinstance(a[2] - self.this, P):
                    off = (a[2] - self.this).const()
                    if off is not None and int(off) in self.cells:
                        m[i] = self.cells[int(off)]
                elif a[0] == "carried" and self.back:
                    ad = self.val(a[2], env, snaps)
                    m[i] = next((v for q, _, v in reversed(self.done) if q == ad), P.a("ld", a[1], ad))
                elif a[0] == "prev":
                    k = subst(a[2], env).const()
                    if k is None:
                        continue
                    if k == 0:
                        m[i] = a[1]
                    elif int(k) - 1 in snaps:
                        m[i] = self.val(a[3], snaps[int(k) - 1], snaps)
            y = subst(x, m)
            if y == x:
                break
            x = y
        return x

    def truth(self, c, env, snaps):
        return self.F.decide(rebuild_cond(self.val(c, env, snaps)))

    def effect(self, e, r, c):
        env, ss, stores, log, snaps = r
        k = e[0]
        if k == "call" and isinstance(e[1], tuple) and e[1][0] == "virt":
            nm = e[1][1]
            args = [self.val(a, env, snaps) if isinstance(a, P) else a for a in e[2]]
            s = ss.get(args[0])
            h = list(e[5].atoms())[0]
            rs = P.a("res", e[5])
            ri = list(rs.atoms())[0]
            env = dict(env)
            ss = {q: v.clone() for q, v in ss.items()}
            s = ss.get(args[0])
            log = log + [(nm, args)]
            if s is None:
                raise Stuck("a virtual call on an unknown object " + show(args[0])[:60])
            if nm == "pop":
                if s.pos is None:
                    self.junk += 1
                    env[ri] = P.a("junk", self.junk)
                    raise Stale("the range is consumed before it was rewound")
                if s.pos < len(s.items):
                    env[ri] = s.items[s.pos]
                    s.pos += 1
                else:
                    env[ri] = -ONE
            elif nm == "reset":
                s.pos = 0
            elif nm == "size":
                env[ri] = s.size
            elif nm in ("set_factor", "set_limit"):
                s.pos = None
            elif nm.startswith("~"):
                pass
            else:
                raise Stuck("a virtual call of " + nm)
            return [(env, ss, stores, log, snaps)]
        if k == "st":
            self.done = stores
            return [(env, ss, stores + [(self.val(e[1], env, snaps), e[2], self.val(e[3], env, snaps))], log, snaps)]
        if k == "for":
            kid, T, paths = e[1], e[2], e[3]
            out = []
            t = self.val(T, env, snaps).const()
            cur = [(env, ss, stores, log, {})]
            n = 0
            tk = T.single()
            ti = list(T.atoms())[0] if tk and tk[0] == "kx" else None
            if t is None and ti is None:
                raise Stuck("a loop whose length is not known: " + show(T)[:80])
            while True:
                if t is None or n == t:
                    for (v, s2, st2, lg, sn) in cur:
                        v2 = dict(v)
                        if ti is not None:
                            v2[ti] = P.c(n)
                        out.append((v2, s2, st2, lg, sn))
                if (t is not None and n >= t) or n >= self.limit or not cur:
                    break
                nxt = []
                for (v, s2, st2, lg, sn) in cur:
                    taken = False
                    for cs, ef in paths:
                        v2 = dict(v)
                        v2[kid] = P.c(n)
                        rs = [(v2, s2, st2, lg, sn)]
                        for x in ef:
                            rs = [z for y in rs for z in self.effect(x, y, c)]
                        for (v3, s3, st3, lg3, sn3) in rs:
                            ts = [self.truth(q, v3, sn3) for q in cs if q[0] != "all"]
                            if False in ts:
                                continue
                            if None in ts:
                                raise Stuck("undecided in a loop: " + str([show(q)[:80] for q in cs]))
                            sn4 = dict(sn3)
                            sn4[n] = v3
                            nxt.append((v3, s3, st3, lg3, sn4))
                            taken = True
                    if not taken and t is not None:
                        nxt.append(({**v, kid: P.c(n)}, s2, st2, lg, sn))
                cur = nxt
                n += 1
            return out
        if k in ("vnew", "vcopy", "alloc", "free"):
            return [(env, ss, stores, log + [e], snaps)]
        if k == "havoc":
            return [r]
        if k == "call":
            return [(env, ss, stores, log + [e], snaps)]
        raise Stuck("effect " + k)


class Stale(Exception):
    pass
