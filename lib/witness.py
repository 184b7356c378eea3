"""Instances of closed-form summaries.

When the closed form of a function and the one its specification requires do not coincide
syntactically, both are instantiated at small shapes: a summary is a set of write maps and values
indexed by symbolic extents, so fixing the extents turns it into a finite table.  Two tables that differ
give a definite disagreement (with the shape and the element); the program itself is never
interpreted.  Agreement on instances never counts as a proof.
"""
import itertools
from poly import *
import poly
import walk
from walk import Unknown, base_of, rebuild_cond, mkb2i, fresh
import spec as S


import random


class Skip(Exception):
    pass


NUM = {"div", "mod", "umod", "norm", "smax", "smin"}


def _int(p):
    c = p.const() if isinstance(p, P) else None
    if c is None or c.denominator != 1:
        return None
    return int(c)


class Env:
    def __init__(self, leaf, dims, limit=4000, desc=""):
        self.leaf = leaf            # atom id -> P constant
        self.dims = dims            # buf P of an extents vector -> tuple of ints
        self.memo = {}
        self.amemo = {}
        self.limit = limit
        self.desc = desc

    # ---- polynomials
    def ev(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self._ev(x)
            self.memo[x] = r
        return r

    def _ev(self, x):
        if len(x.t) > 4000:
            raise Skip("too large")
        acc = {}
        c0 = 0
        rest = ZERO
        for m, c in x.t.items():
            if not m:
                c0 += c
                continue
            k = c
            t = None
            for i in m:
                q = self.atom(i)
                qc = q.const()
                if qc is not None:
                    k *= qc
                    if not k:
                        break
                else:
                    t = q if t is None else t * q
            if not k:
                continue
            if t is None:
                c0 += k
            else:
                rest = rest + t.scale(k)
        return rest + P.c(c0) if c0 else rest

    def atom(self, i):
        r = self.amemo.get(i)
        if r is None:
            r = self._atom(i)
            self.amemo[i] = r
        return r

    def _atom(self, i):
        if i in self.leaf:
            return self.leaf[i]
        a = atom(i)
        k = a[0]
        if k in S.LOST and k not in ("prev",):
            raise Skip("lost " + k)
        if k == "evt":
            raise Skip("result of a call that is not analysed")
        if k in ("argp", "iv", "bv", "arg", "g", "alloca", "heap", "null", "fconst"):
            if k == "iv" or k == "bv":
                raise Skip("free index")
            return P({(i,): 1})
        if k in ("sum", "prod"):
            T = _int(self.ev(a[1]))
            if T is None or T > self.limit:
                raise Skip("trip")
            bv = atom_id(("bv", a[3]))
            r = ZERO if k == "sum" else ONE
            for j in range(max(0, T)):
                b = self.ev(subst(a[2], {bv: P.c(j)}))
                r = r + b if k == "sum" else r * b
            return r
        if k == "red":
            T = _int(self.ev(a[3]))
            if T is None or T > self.limit:
                raise Skip("trip")
            bv = atom_id(("bv", a[5]))
            vals = {self.ev(a[2])}
            for j in range(max(0, T)):
                vals.add(self.ev(subst(a[4], {bv: P.c(j)})))
            return mkset(a[1], vals)
        if k == "fn" and a[1] in ("fmin", "fmax", "llvm.minnum", "llvm.maxnum"):
            return mkset("min" if "min" in a[1] else "max", {self.ev(a[2]), self.ev(a[3])})
        if k == "b2i":
            c = self.cond(a[1])
            return mkb2i(c)
        if k == "norm":
            x, d = self.ev(a[1]), self.ev(a[2])
            xi = _int(x)
            if xi is None:
                raise Skip("norm")
            return x if xi >= 0 else x + d
        if k in ("div", "mod", "umod"):
            x, y = _int(self.ev(a[1])), _int(self.ev(a[2]))
            if x is None or y is None or y == 0:
                raise Skip("division")
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return P.c(q if k == "div" else x - q * y)
        if k in ("smax", "smin"):
            xs = [_int(self.ev(z)) for z in a[1:]]
            if None in xs:
                raise Skip("smax")
            return P.c(max(xs) if k == "smax" else min(xs))
        if k == "total":
            return P.c(total_(self.dimkey(a[1])))
        if k == "ld":
            ad = self.ev(a[2])
            p = P.a("ld", a[1], ad)
            j = list(p.atoms())[0]
            if j in self.leaf:
                return self.leaf[j]
            b, o = base_of(ad)
            if b is not None:
                bp = P({(b,): 1})
                if bp in self.dims and a[1] == "i64":
                    oi = _int(o)
                    d = self.dims[bp]
                    if oi is None or oi % 8 or not 0 <= oi // 8 < len(d):
                        raise Skip("extent out of range")
                    return P.c(d[oi // 8])
            return p
        if k == "vsize":
            p = P.a("vsize", self.ev(a[1]))
            j = list(p.atoms())[0]
            return self.leaf.get(j, p)
        if len(a) == 1:
            return P({(i,): 1})
        b = tuple(self.any(z) for z in a[1:])
        r = rebuild_((k,) + b)
        if isinstance(r, P) and len(r.t) == 1:
            s = list(r.t)[0]
            if len(s) == 1 and r.t[s] == 1 and s[0] in self.leaf:
                return self.leaf[s[0]]
        return r

    def dimkey(self, key):
        if key[0] == "dims":
            xs = [_int(self.ev(z)) for z in key[1:]]
            if None in xs:
                raise Skip("extents")
            return tuple(xs)
        if key[0] == "vec":
            b = self.ev(key[1])
            if b in self.dims:
                return self.dims[b]
        raise Skip("extents")

    def any(self, x):
        if isinstance(x, P):
            return self.ev(x)
        if isinstance(x, tuple):
            if x and x[0] in COND:
                return self.cond(x)
            return tuple(self.any(z) for z in x)
        return x

    # ---- conditions
    def cond(self, c):
        k = c[0]
        if k in ("T", "F"):
            return c
        if k in ("and", "or"):
            xs = [self.cond(z) for z in c[1:]]
            return cand(xs) if k == "and" else cor(xs)
        if k == "not":
            return cnot(self.cond(c[1]))
        if k in ("ge", "eq", "ne"):
            p = self.ev(c[1])
            return {"ge": cge, "eq": ceq, "ne": cne}[k](p)
        if k == "f":
            a, b = self.ev(c[2]), self.ev(c[3])
            d = (a - b).const()
            if d is not None and a.const() is not None:
                rel = "=" if d == 0 else ("<" if d < 0 else ">")
                return TRUE if rel in S._FSET[c[1]] else FALSE
            return cf(c[1], a, b)
        if k in ("bool", "nbool"):
            p = c[1]
            s = p.single()
            r = None
            if s and s[0] == "dimseq":
                try:
                    r = TRUE if self.dimkey(s[1]) == self.dimkey(s[2]) else FALSE
                except Skip:
                    r = None
            if s and s[0] == "veq" and r is None:
                try:
                    r = TRUE if self.dimkey(s[1]) == self.dimkey(s[2]) else FALSE
                except Skip:
                    r = None
            if r is None:
                q = self.ev(p)
                qc = q.const()
                if qc is not None:
                    r = TRUE if qc else FALSE
                else:
                    r = ("bool", q)
            return r if k == "bool" else cnot(r)
        if k == "all":
            T = _int(self.ev(c[1]))
            if T is None or T > self.limit:
                raise Skip("trip")
            bv = atom_id(("bv", c[3]))
            return cand([self.cond(subst(c[2], {bv: P.c(j)})) for j in range(max(0, T))])
        raise Skip("condition " + str(k))


COND = {"T", "F", "and", "or", "not", "ge", "eq", "ne", "f", "bool", "nbool", "all"}


def rebuild_(a):
    return poly.rebuild(a)


def mkset(kind, vals):
    flat = set()
    for v in vals:
        s = v.single()
        if s and s[0] == "rset" and s[1] == kind:
            flat |= set(s[2:])
        else:
            flat.add(v)
    cs = [v.const() for v in flat if v.const() is not None]
    if len(cs) > 1:
        keep = max(cs) if kind == "max" else min(cs)
        flat = {v for v in flat if v.const() is None} | {P.c(keep)}
    if len(flat) == 1:
        return list(flat)[0]
    return P.a("rset", kind, *sorted(flat, key=lambda p: p.key()))


def total_(d):
    r = 1
    for x in d:
        r *= x
    return r if d else 0


# ------------------------------------------------------------------ choosing instances
SHAPES = [(2, 3), (3,), (3, 2), (2, 2), (2, 3, 2), (1,), (2,), (1, 3), (3, 1), (2, 1, 3), (3, 2, 2), (0,), (0, 2), (2, 0), (2, 2, 3, 2), (4,), (5,), (1, 1), (3, 3), (3, 2, 4),
          (4, 2), (2, 4), (1, 2, 1), (), (2, 0, 3), (2, 1, 2, 3, 2), (2, 1, 2, 1, 3, 2), (7,), (8,), (4, 4), (2, 3, 1, 2), (3, 1, 4, 2), (2, 4, 3, 2), (2, 3, 1, 2, 2),
          (3, 2, 4, 2, 3), (2, 3, 1, 2, 1, 2), (1, 3, 2, 2, 3, 2), (3, 2, 1, 4, 2, 2)]


def thresholds(conds):
    out = set()
    for c in conds:
        for p in cond_polys(c):
            k = p.t.get((), 0)
            if k.denominator == 1 and 4 < abs(k) <= 1100:
                out.add(abs(int(k)))
    return sorted(out)


def cond_polys(c):
    if isinstance(c, P):
        return [c]
    r = []
    for z in c[1:]:
        if isinstance(z, P):
            r.append(z)
        elif isinstance(z, tuple):
            r += cond_polys(z)
    return r


def ranked_shapes(r):
    """extents worth trying for a fixed rank: distinct ones first, then units, zeros and repeated ones"""
    base = [2, 3, 4, 5, 2, 3][:r]
    out = [tuple(base), tuple(base[::-1])]
    for k in range(r):
        out.append(tuple(base[k:] + base[:k]))
    if r >= 4:
        # few elements, every position different from its neighbours
        out += [(2, 1, 3, 2, 1, 3)[:r], (1, 2, 1, 3, 2, 1)[:r], (3, 1, 2, 1, 3, 2)[:r], (2, 2, 1, 3, 1, 2)[:r], (2, 1, 1, 1, 3, 2)[:r]]
    out.append(tuple([2] * r))
    for k in range(r):
        out.append(tuple(1 if j == k else base[j] for j in range(r)))
        out.append(tuple(0 if j == k else base[j] for j in range(r)))
    import itertools
    if r <= 3:
        out += list(itertools.product((1, 2, 3), repeat=r))
    else:
        out += list(itertools.product((1, 2), repeat=r))
    out.append(tuple([0] * r))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


class Space:
    """what the arguments may be: list of (kind, payload) per argument"""

    def __init__(self, tens, conds=(), ints=None, extra=None, free=(), maxtry=6000, maxok=60):
        self.tens, self.conds = tens, [c for c in conds]
        self.ints = ints
        self.extra = extra or []        # list of lists of (leafdict, dimsdict, desc)
        self.free = free
        self.maxtry, self.maxok = maxtry, maxok

    def envs(self):
        th = thresholds(self.conds)
        big = []
        for t in th:
            big += [(t,), (t + 1,), (t + 2,), (t - 1,), (t + 1, 2), (2, t + 1), (t + 3, 3)]
        dims = []
        for t in self.tens:
            cands = SHAPES + big
            if t.elty in ("long", "unsigned long", "bool") or getattr(t, "plain", False):
                opts = []
                for n in [3, 2, 1, 0, 4, 5] + [s for k in th for s in (k, k + 1, k + 2)]:
                    lf, dm_ = {t.size: P.c(n)}, {}
                    if getattr(t, "plain", False):
                        lf[t.rank], dm_ = P.c(1), {P.a("buf", t.addr + 8): (n,)}
                    opts.append((lf, dm_, "%s: %d elements" % (show(t.addr), n)))
            else:
                opts = []
                fixed = [c for c in self.conds if c[0] == "eq" and c[1].t and t.rank.atoms() <= c[1].atoms() and len(c[1].atoms()) == 1]
                r = None
                if fixed:
                    q = (t.rank - fixed[0][1]).const()
                    if q is None:
                        q = (t.rank + fixed[0][1]).const()
                    r = int(q) if q is not None and q == int(q) and 0 <= q <= 6 else None
                if r is not None and r >= 2:
                    cands = ranked_shapes(r) + [x for x in big if len(x) == r]
                for s in cands:
                    lf = {t.size: P.c(total_(s)), t.rank: P.c(len(s))}
                    opts.append((lf, {P.a("buf", t.addr + 8): s}, "%s: %s" % (show(t.addr), "x".join(map(str, s)) or "rank 0")))
            dims.append(opts)
        # integer arguments
        ids = set()
        for c in self.conds:
            ids |= all_atoms(c)
        for p in self.free:
            ids |= all_atoms(p)
        iargs = sorted(i for i in ids if atom(i)[0] == "arg" and atom(i)[2] in ("i64", "i32", "i16", "i8", "i1"))
        kxs = sorted(i for i in ids if atom(i)[0] == "kx")
        uns = sorted(i for i in ids if atom(i)[0] == "uninit" and atom(i)[2] in ("i64", "i32"))
        if len(iargs) > 8 or len(kxs) > 2 or len(uns) > 1:
            return
        for i in iargs:
            vals = [0, 1, -1, 2, 3, -2, 4, 5, -3] + th + [x + 1 for x in th]
            if len(iargs) > 5:
                vals = [1, 2, 3, 0, -1]
            if atom(i)[2] == "i1":
                vals = [0, 1]
            if self.ints and i in self.ints:
                vals = self.ints[i]
            dims.append([({P({(i,): 1}): P.c(v)}, {}, "a%s=%d" % (atom(i)[1], v)) for v in vals])
        for i in uns:
            dims.append([({P({(i,): 1}): P.c(v)}, {}, "a value never set=%d" % v) for v in (7, 1, 0, 2, 3, -1)])
        for i in kxs:
            dims.append([({P({(i,): 1}): P.c(v)}, {}, "exit at %d" % v) for v in range(0, 4)])
        dims += self.extra
        # facts restricted to a prefix of the choices prune early
        order = list(range(len(dims)))
        tries = [0]
        ok = [0]
        sup = []
        for n in order:
            s = set()
            for lf, dd, de in dims[n][:1]:
                for p in lf:
                    s |= p.atoms()
                for b in dd:
                    s.add(list(b.atoms())[0])
            sup.append(s)
        owned = set().union(*sup) if sup else set()

        def rec(n, leaf, dm, desc, pending):
            if tries[0] > self.maxtry or ok[0] >= self.maxok:
                return
            if n == len(order):
                ok[0] += 1
                yield Env(leaf, dm, desc=", ".join(desc)), list(pending)
                return
            have = set().union(*sup[:n + 1])
            now = [c for c in pending if not ((all_atoms(c) & owned) - have)]
            later = [c for c in pending if c not in now]
            opts = dims[n]
            if len(opts) > 3 and not opts[0][1] and len(opts[0][0]) == 1:
                opts = solved(opts, now, leaf, dm) or opts
            for lf, dd, de in opts:
                tries[0] += 1
                if tries[0] > self.maxtry or ok[0] >= self.maxok:
                    return
                l2 = dict(leaf)
                for p, v in lf.items():
                    l2[list(p.atoms())[0]] = v
                d2 = dict(dm)
                d2.update(dd)
                e = Env(l2, d2)
                keep = []
                good = True
                for c in now:
                    try:
                        r = e.cond(c)
                    except Skip:
                        good = False
                        break
                    if r == FALSE:
                        good = False
                        break
                    if r != TRUE:
                        keep.append(r)
                if not good:
                    continue
                yield from rec(n + 1, l2, d2, desc + [de], later + keep)
        if not dims:
            e = Env({}, {})
            keep = []
            for c in self.conds:
                try:
                    r = e.cond(c)
                except Skip:
                    return
                if r == FALSE:
                    return
                if r != TRUE:
                    keep.append(r)
            yield e, keep
            return
        yield from rec(0, {}, {}, [], list(self.conds))
        # second pass: the same space in a shuffled (reproducible) order, few instances per prefix
        if len(dims) < 3:
            return
        rnd = random.Random(12345)
        base = dims
        dims = list(base)
        cycle = list(base[0])
        rounds = max(12, len(cycle) // 2 + 6)
        done = 0
        for r in range(rounds):
            if done >= self.maxok:
                return
            for n in range(len(base)):
                dims[n] = list(base[n])
                rnd.shuffle(dims[n])
            tries[0] = self.maxtry - max(200, self.maxtry // rounds)
            ok[0] = self.maxok - 6
            for x in rec(0, {}, {}, [], list(self.conds)):
                done += 1
                yield x


def solved(opts, conds, leaf, dm):
    """an integer argument fixed by an equation whose other unknowns already have values takes that value"""
    (p, _), = opts[0][0].items()
    i, = p.atoms()
    for c in conds:
        if c[0] == "eq" and (i,) in c[1].t and abs(c[1].t[(i,)]) == 1:
            k = c[1].t[(i,)]
            rest = c[1] - P({(i,): k})
            if i in all_atoms(rest):
                continue
            try:
                v = _int(Env(leaf, dm).ev(rest.scale(-k)))
            except (Skip, Unknown):
                continue
            if v is not None and abs(v) <= 4096:
                d = opts[0][2]
                j = d.rfind("=")
                return [({p: P.c(v)}, {}, (d[:j + 1] if j >= 0 else "exit at ") + str(v))]
    return None


def data_cond(c):
    """is this residual condition about element values only (freely choosable)?"""
    k = c[0]
    if k in ("and", "or"):
        return all(data_cond(x) for x in c[1:])
    if k == "f":
        return not S.lost(c)
    if k in ("bool", "nbool"):
        s = c[1].single()
        return bool(s) and s[0] in ("bitand", "ld", "arg") and not S.lost(c)
    return False


def table(pieces, env, es, cap=6000, base=None):
    """offset -> list of (conds, value) ; later entries override; an unconditional entry clears"""
    out = {}
    n = [0]

    def emit(loops, off, alts, sub):
        if loops:
            k, T = loops[0]
            t = _int(env.ev(subst(T, sub)))
            if t is None:
                raise Skip("trip")
            if t > cap:
                raise Skip("large")
            for j in range(max(0, t)):
                s2 = dict(sub)
                s2[k] = P.c(j)
                emit(loops[1:], off, alts, s2)
            return
        n[0] += 1
        if n[0] > cap:
            raise Skip("large")
        o = _int(env.ev(subst(off, sub)))
        if o is None:
            raise Skip("position")
        ent = []
        full = False
        for c, v in alts:
            cc = cand([env.cond(rebuild_cond(subst(x, sub))) for x in c]) if c else TRUE
            if cc == FALSE:
                continue
            if not isinstance(v, P):
                raise Skip("value")
            v = subst(v, sub)
            if base is not None:
                # an accumulation: what the cell held when the iteration began
                old = {}
                for i in v.atoms():
                    a = atom(i)
                    if a[0] == "carried":
                        prev = out.get(_int(env.ev(a[2] - base)))
                        if not prev or len(prev) != 1 or prev[0][0] != TRUE:
                            raise Skip("carried")
                        old[i] = prev[0][1]
                if old:
                    v = subst(v, old)
            ent.append((cc, env.ev(v)))
            if cc == TRUE:
                full = True
        if not ent:
            return
        if full or S.complete([((c,), v) for c, v in ent], Facts()):
            out[o] = ent
        else:
            miss = cnot(cor([c for c, v in ent]))
            out[o] = ent + [(cand([c, miss]), v) for c, v in out.get(o, [])]
    for p in pieces:
        emit(list(p.loops), p.off, p.alts, {})
    return out


def spec_table(specs, env, es, cap=6000):
    out = {}
    nl = max(1, es // 8)
    n = 0
    for sp in specs:
        ext = []
        for e in sp.extents:
            x = _int(env.ev(e if isinstance(e, P) else P.c(e)))
            if x is None:
                raise Skip("extent")
            ext.append(max(0, x))
        strides = sp.strides
        if strides is None:
            strides, acc = [], ONE
            for e in sp.extents:
                strides.append(acc)
                acc = acc * e
        st = [_int(env.ev(s if isinstance(s, P) else P.c(s))) for s in strides]
        s0 = _int(env.ev(sp.start if isinstance(sp.start, P) else P.c(sp.start)))
        if None in st or s0 is None:
            raise Skip("stride")
        for cs in itertools.product(*[range(x) for x in reversed(ext)]):
            cs = cs[::-1]
            n += 1
            if n > cap:
                raise Skip("large")
            pos = s0 + sum(a * b for a, b in zip(cs, st))
            v = sp.value(*[P.c(x) for x in cs])
            if not isinstance(v, list):
                v = [((), v)]
            for lane in range(nl):
                ent = []
                for c, x in v:
                    cc = cand([env.cond(rebuild_cond(z)) for z in c]) if c else TRUE
                    if cc == FALSE:
                        continue
                    ent.append((cc, env.ev(x[lane] if isinstance(x, tuple) else x)))
                out[pos * es + 8 * lane] = ent
    return out


def result(case, cs, addr, elty, tens, specf, F, conds=None, ints=None, extra=None, space=None):
    """-> (n agreeing instances, None) or (n, (what, description)) for the first disagreement.
    specf(c, F) is the same function the symbolic comparison uses."""
    es = S.esize(elty)
    w = cs.w
    vec = w.vec(cs, addr, es)
    try:
        pieces = S.contents(cs, vec.buf, vec.size, es, elty)
        perr = None
    except (S.Lost, Unknown) as e:
        pieces, perr = None, str(e)
    sp = specf
    created = any(e[0] in ("vnew", "vcopy", "map") and e[1] == vec.buf for e in cs.eff)
    free = [vec.size, sp["size"]] + [p.off for p in pieces or []] + [v for p in pieces or [] for c, v in p.alts if isinstance(v, P)] + [T for p in pieces or [] for k, T in p.loops]
    space = space or Space(tens, list(conds if conds is not None else case.facts.conds), ints=ints, extra=extra, free=free)
    agree, why = 0, None
    import os as _o
    dbg = _o.environ.get("WDBG")
    for env, residual in space.envs():
        try:
            if not all(data_cond(c) for c in residual):
                why = "condition not resolved: %s" % show(residual)[:100]
                if dbg:
                    print("WRES", env.desc, why)
                continue
            if S.consistent(residual, Facts()) is not True:
                continue
            n = _int(env.ev(vec.size))
            m = _int(env.ev(sp["size"]))
            if n is None or m is None:
                why = "size"
                continue
            if n != m:
                return agree, "for %s the result holds %d elements, not %d" % (env.desc, n, m)
            if sp.get("dims") is not None:
                want = sp["dims"]
                d = dims_of(cs, addr, env)
                if d is not None:
                    if isinstance(want, S.Dims):
                        wt = spec_table(want.pieces, env, 8)
                        wn = _int(env.ev(want.n))
                        wd = tuple(_int(wt[8 * q][-1][1]) for q in range(wn))
                    elif isinstance(want, S.Ten):
                        wd = env.dims[P.a("buf", want.addr + 8)]
                    else:
                        wd = tuple(_int(env.ev(x if isinstance(x, P) else P.c(x))) for x in want)
                    if d != wd:
                        return agree, "for %s the result has dimensions %s, not %s" % (env.desc, d, wd)
            if pieces is None:
                why = perr
                continue
            ti = table(pieces, env, es, base=vec.buf)
            ts = spec_table(sp["pieces"], env, es)
            lo, hi = 0, n * es
            for o in ti:
                if not lo <= o < hi:
                    return agree, "for %s a write lands at byte %d of a %d-byte result" % (env.desc, o, hi)
            for o in sorted(ts):
                a, b = ti.get(o), ts[o]
                el = "element %d%s" % (o // es, (" lane %d" % (o % es // 8)) if es == 16 else "")
                if a is None:
                    return agree, "for %s %s is never written" % (env.desc, el)
                v, d = compare_cell(a, b, residual)
                if v == S.REFUTED:
                    return agree, "for %s %s: %s" % (env.desc, el, d)
                if v == S.UNK and not d.startswith("numerically equal"):
                    raise Skip(d)
            agree += 1
        except Skip as e:
            why = str(e)
            if dbg:
                print("WSKIP", env.desc, why)
            continue
        except Unknown as e:
            why = str(e)
            continue
    if dbg and why:
        print("WDBG", why)
    return (agree, None) if agree or why is None else (0, None)


def compare_cell(a, b, residual):
    F = Facts()
    return S.compare_alts([(tuple(residual) + (c,), v) for c, v in a], [((c,), v) for c, v in b], F)


def dims_of(cs, addr, env):
    try:
        key = S.vkey(cs.w, cs, addr + 8)
    except Unknown:
        return None
    try:
        if key[0] == "vec" or key[0] == "dims":
            return env.dimkey(key)
    except Skip:
        pass
    # extents written one by one
    try:
        v = cs.w.vec(cs, addr + 8)
        n = _int(env.ev(v.size))
        if n is None or n > 8:
            return None
        ps = S.contents(cs, v.buf, v.size, 8, "long")
        t = table(ps, env, 8)
        out = []
        for k in range(n):
            e = t.get(8 * k)
            if e is None or len(e) != 1 or e[0][0] != TRUE:
                return None
            x = _int(e[0][1])
            if x is None:
                return None
            out.append(x)
        return tuple(out)
    except (Skip, S.Lost, Unknown):
        return None


def scalar(case, impl, spec, tens, ints=None, extra=None, conds=None, maxok=60):
    """impl, spec: P, or lists of alternatives [(conds, P)]"""
    if isinstance(impl, P):
        impl = [((), impl)]
    if isinstance(spec, P):
        spec = [((), spec)]
    free = [v for c, v in impl + spec]
    agree = 0
    for env, residual in Space(tens, list(conds if conds is not None else case.facts.conds), ints=ints, extra=extra, free=free, maxok=maxok).envs():
        try:
            if not all(data_cond(c) for c in residual) or S.consistent(residual, Facts()) is not True:
                continue
            A = [(cand([env.cond(x) for x in c]), env.ev(v)) for c, v in impl]
            B = [(cand([env.cond(x) for x in c]), env.ev(v)) for c, v in spec]
            v, d = compare_cell([x for x in A if x[0] != FALSE], [x for x in B if x[0] != FALSE], residual)
            if v == S.REFUTED:
                return agree, "for %s: %s" % (env.desc, d)
            if v == S.UNK and not d.startswith("numerically equal"):
                continue
            agree += 1
        except (Skip, Unknown):
            continue
    return agree, None
