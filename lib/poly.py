"""Polynomial normal form over interned atoms, and a condition normal form.

Values of the analysed program are represented as polynomials with rational
coefficients over *atoms* (arguments, initial memory cells, sizes, uninterpreted
pure functions, reductions ...).  Two values with the same normal form are equal
for every input; no solver is involved.
"""
from fractions import Fraction

_atoms = []          # id -> tuple
_ids = {}            # tuple -> id


def atom_id(t):
    i = _ids.get(t)
    if i is None:
        i = len(_atoms)
        _atoms.append(t)
        _ids[t] = i
    return i


def atom(i):
    return _atoms[i]


def qn(v):
    """exact number: int when integral, Fraction otherwise (never a float)"""
    v = Fraction(v)
    return v.numerator if v.denominator == 1 else v


def qd(a, b):
    """exact quotient"""
    if type(a) is int and type(b) is int:
        q, r = divmod(a, b)
        return q if not r else Fraction(a, b)
    return qn(Fraction(a) / b)


class P:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def c(v):
        if type(v) is not int:
            v = qn(v)
        return P({(): v}) if v else ZERO

    @staticmethod
    def a(*t):
        return P({(atom_id(tuple(t)),): 1})

    def key(self):
        return tuple(sorted(self.t.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, P):
            o = P.c(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-(o if isinstance(o, P) else P.c(o)))

    def __rsub__(self, o):
        return P.c(o) - self

    def scale(self, k):
        if type(k) is not int:
            k = qn(k)
        if not k:
            return ZERO
        if k == 1:
            return self
        return P({m: c * k for m, c in self.t.items()} if type(k) is int else {m: qn(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, P):
            return self.scale(o)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, extra = _mulmono(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return P(d)

    __rmul__ = __mul__

    def const(self):
        """The value if constant, else None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def single(self):
        """The atom tuple when self is exactly one atom with coefficient 1."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return _atoms[m[0]]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def __repr__(self):
        return show(self)


def _mulmono(m1, m2):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    m = sorted(m1 + m2)
    # x * inv(x) -> 1
    for i in list(m):
        a = _atoms[i]
        if a[0] == "inv":
            p = a[1]
            if len(p.t) == 1:
                (pm, pc), = p.t.items()
                if pc == 1 and len(pm) == 1 and pm[0] in m and i in m:
                    m.remove(pm[0])
                    m.remove(i)
    return tuple(m), None


ZERO = P({})
ONE = P({(): 1})


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return P.a("inv", p)
        return P.c(qd(1, c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P.c(qd(1, c))
        for i in m:
            a = _atoms[i]
            if a[0] == "inv":
                r = r * a[1]
            else:
                r = r * P({(atom_id(("inv", P({(i,): 1}))),): 1})
        return r
    # normalise the leading coefficient so that inv(2x+2y) = 1/2 inv(x+y)
    lead = p.t[min(p.t)]
    return P({(atom_id(("inv", p.scale(qd(1, lead)))),): qd(1, lead)})


# ---------------------------------------------------------------- printing
def show(x):
    if isinstance(x, P):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items()):
            f = [show_atom(_atoms[i]) for i in m]
            cs = str(c)
            if not f:
                out.append(cs)
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append(cs + "*" + "*".join(f))
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(x, tuple):
        return "(" + ",".join(show(y) for y in x) + ")"
    if isinstance(x, list):
        return "[" + ",".join(show(y) for y in x) + "]"
    return str(x)


def show_atom(a):
    k = a[0]
    if k == "arg":
        return "a%s" % a[1]
    if k == "argp":
        return "p%s" % a[1]
    if k == "ld":
        return "[%s]" % show(a[2])
    if k == "inv":
        return "1/(%s)" % show(a[1])
    if k == "iv":
        return "i%s" % a[1]
    if k == "bv":
        return "#%s" % a[1]
    if k in ("fn",):
        return "%s(%s)" % (a[1], ",".join(show(z) for z in a[2:]))
    return "%s(%s)" % (k, ",".join(show(z) for z in a[1:]))


# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    """Replace atoms (by id -> P) everywhere inside x, rebuilding normal forms."""
    if memo is None:
        memo = {}
    if isinstance(x, P):
        r = memo.get(x)
        if r is not None:
            return r
        changed = False
        acc = ZERO
        keep = {}
        for mono, c in x.t.items():
            new = []
            ch = False
            for i in mono:
                q = subst_atom(i, m, memo)
                if q is not None:
                    ch = True
                new.append((i, q))
            if not ch:
                keep[mono] = c
                continue
            changed = True
            t = P.c(c)
            for i, q in new:
                t = t * (q if q is not None else P({(i,): 1}))
            acc = acc + t
        r = (P(keep) + acc) if changed else x
        memo[x] = r
        return r
    if isinstance(x, tuple):
        y = tuple(subst(z, m, memo) for z in x)
        return y if y != x else x
    if isinstance(x, list):
        return [subst(z, m, memo) for z in x]
    return x


def subst_atom(i, m, memo):
    if i in m:
        return m[i]
    k = ("A", i)
    if k in memo:
        return memo[k]
    a = _atoms[i]
    r = None
    if len(a) > 1:
        b = tuple(subst(z, m, memo) for z in a[1:])
        if b != a[1:]:
            r = rebuild((a[0],) + b)
    memo[k] = r
    return r


REBUILD = {}


def rebuild(a):
    if a[0] == "inv":
        return inv(a[1])
    h = REBUILD.get(a[0])
    if h:
        r = h(a)
        if r is not None:
            return r
    return P.a(*a)


def contains(x, ids):
    """Does any atom id of `ids` occur anywhere inside x?"""
    return bool(all_atoms(x) & ids)


_aa = {}


def all_atoms(x):
    """Set of all atom ids occurring (deeply)."""
    if isinstance(x, P):
        r = _aa.get(x)
        if r is None:
            s = set()
            for i in x.atoms():
                s.add(i)
                s |= _deep(i)
            r = frozenset(s)
            _aa[x] = r
        return r
    if isinstance(x, (tuple, list)):
        s = set()
        for z in x:
            if isinstance(z, (P, tuple, list)):
                s |= all_atoms(z)
        return frozenset(s)
    return frozenset()


_dp = {}


def _deep(i):
    r = _dp.get(i)
    if r is None:
        r = all_atoms(tuple(_atoms[i][1:]))
        _dp[i] = r
    return r


# ---------------------------------------------------------------- conditions
# ("T",) ("F",) ("ge",P): P>=0   ("eq",P): P==0   ("ne",P)
# ("f",pred,a,b) pred in oeq,olt,ole,one,ord and negations une,uge(a,b)->("f","uge")...
# ("and",..) ("or",..) ("bool",P) ("nbool",P)
TRUE = ("T",)
FALSE = ("F",)
_NEG = {"oeq": "une", "une": "oeq", "olt": "uge", "uge": "olt", "ole": "ugt", "ugt": "ole",
        "ogt": "ule", "ule": "ogt", "oge": "ult", "ult": "oge", "one": "ueq", "ueq": "one",
        "ord": "uno", "uno": "ord"}
_SWAP = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}


def cge(p):
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    # integer normalisation: divide by gcd, floor the constant
    p = _norm_int(p, True)
    return ("ge", p)


def _norm_int(p, ge):
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if c.denominator != 1:
            return p
        if m:
            g = gcd(g, abs(c.numerator))
    if g > 1:
        k = p.t.get((), 0)
        if ge:
            d = {m: qd(c, g) for m, c in p.t.items() if m}
            kk = k.numerator // g
        else:
            if k.numerator % g:
                return None
            d = {m: qd(c, g) for m, c in p.t.items() if m}
            kk = qd(k, g)
        if kk:
            d[()] = kk
        return P(d)
    return p


def ceq(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    q = _norm_int(p, False)
    if q is None:
        return FALSE
    lead = q.t[min(m for m in q.t if m)]
    if lead < 0:
        q = -q
    return ("eq", q)


def cne(p):
    return cnot(ceq(p))


def cf(pred, a, b):
    if pred in ("true",):
        return TRUE
    if pred in ("false",):
        return FALSE
    if pred in _SWAP:
        pred, a, b = _SWAP[pred], b, a
    if pred in ("oeq", "une", "one", "ueq", "ord", "uno"):
        if repr_key(b) < repr_key(a):
            a, b = b, a
    return ("f", pred, a, b)


def repr_key(p):
    return p.key() if isinstance(p, P) else (repr(p),)


def cnot(c):
    k = c[0]
    if k == "T":
        return FALSE
    if k == "F":
        return TRUE
    if k == "ge":
        return cge(-c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "f":
        return cf(_NEG[c[1]], c[2], c[3])
    if k == "bool":
        return ("nbool", c[1])
    if k == "nbool":
        return ("bool", c[1])
    if k == "and":
        return cor([cnot(x) for x in c[1:]])
    if k == "or":
        return cand([cnot(x) for x in c[1:]])
    if k == "not":
        return c[1]
    return ("not", c)


def cand(cs):
    out = []
    for c in cs:
        if c[0] == "T":
            continue
        if c[0] == "F":
            return FALSE
        for x in (c[1:] if c[0] == "and" else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and",) + tuple(sorted(out, key=repr))


def cor(cs):
    out = []
    for c in cs:
        if c[0] == "F":
            continue
        if c[0] == "T":
            return TRUE
        for x in (c[1:] if c[0] == "or" else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or",) + tuple(sorted(out, key=repr))


# ---------------------------------------------------------------- facts / prover
NONNEG = set(["vsize", "trip", "elem_dim"])


def mono_nonneg(m, facts):
    """Is the product of these atoms known to be >= 0 ?"""
    from collections import Counter
    for i, n in Counter(m).items():
        if n % 2 == 0:
            continue
        if not atom_nonneg(i, facts):
            return False
    return True


def atom_nonneg(i, facts):
    a = _atoms[i]
    if a[0] in NONNEG or a[0] in ("b2i", "umod"):
        return True
    if facts is not None and i in facts.nonneg:
        return True
    if a[0] == "ld" and a[1] == "i64":
        # extents of a tensor argument are never negative (documented representation invariant)
        for j in a[2].atoms():
            b = _atoms[j]
            if b[0] == "buf" and len(b) == 2 and b[1].t.get((), 0) == 8:
                return True
            if b[0] == "buf" and len(b) == 4 and isinstance(b[3], P) and b[3].const() == 8:
                return True
        return False
    if a[0] == "total":
        return True
    if a[0] == "prod" and facts is not None:
        return facts.obviously(a[2])
    if a[0] in ("div", "mod") and facts is not None:
        return facts.obviously(a[1]) and facts.obviously(a[2])
    if a[0] == "smax":
        return any(facts is not None and facts.obviously(x) for x in a[1:])
    if a[0] == "smin" and facts is not None:
        return all(facts.obviously(x) for x in a[1:])
    return False


class Facts:
    """A conjunction of conditions known to hold (trace partition)."""
    __slots__ = ("conds", "ge", "nonneg", "eqs", "neq", "others", "quant", "_memo")

    def __init__(self, conds=()):
        self.conds = ()
        self.ge = ()
        self.nonneg = frozenset()
        self.eqs = ()
        self.neq = frozenset()
        self.others = frozenset()
        self.quant = ()
        self._memo = {}
        for c in conds:
            self._add(c)

    def add(self, c):
        f = Facts.__new__(Facts)
        f.conds, f.ge, f.nonneg, f.eqs, f.neq, f.others, f.quant = self.conds, self.ge, self.nonneg, self.eqs, self.neq, self.others, self.quant
        f._memo = {}
        f._add(c)
        return f

    def _add(self, c):
        k = c[0]
        if k == "T" or c in self.conds:
            return
        if k == "and":
            for x in c[1:]:
                self._add(x)
            return
        self.conds = self.conds + (c,)
        self._memo = {}
        if k == "ge":
            if -c[1] in self.ge or self.obviously(-c[1]):
                self._add(("eq", c[1]))
            self._addge(c[1])
        elif k == "eq":
            p = c[1]
            p2 = self.reduce(p) if self.eqs else p
            self.eqs = self.eqs + (p,)
            if p2 != p and p2.t:          # with the earlier equations: x = a, x = b  ->  a = b
                self.eqs = self.eqs + (p2,)
            self._addge(p)
            self._addge(-p)
            for q in self.neq:
                if any(m in p.t for m in q.t):
                    self._factors(q)
            if len(p.t) == 2 and () in p.t:
                m = max(p.t)
                if len(m) > 1 and p.t[m] == -p.t[()] and all(atom_nonneg(i, self) for i in m):
                    for i in set(m):          # a product of naturals that is one
                        self._add(("eq", P({(i,): 1, (): -1})))
        elif k == "ne":
            self.neq = self.neq | {c[1]}
            p = c[1]
            # x != 0 and x >= 0  ->  x - 1 >= 0
            if self.ge0(p):
                self._addge(p - 1)
            elif self.ge0(-p):
                self._addge(-p - 1)
            self._factors(p)
        elif k == "or":
            left = [x for x in c[1:] if x[0] not in ("ge", "eq", "ne") or self.decide(x) is not False]
            if len(left) == 1:
                self._add(left[0])
            else:
                self.others = self.others | {c}
        else:
            self.others = self.others | {c}
            if k == "all":
                q = _triggers(c)
                if q is not None:
                    self.quant = self.quant + (q,)

    def _factors(self, p):
        """a product that is not zero has no factor that is zero"""
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) < 2 and self.eqs:
                q = self.reduce(p)
                if len(q.t) == 1:
                    (m, c), = q.t.items()
            if len(m) > 1 or m and P({m: c}) != p:
                for i in set(m):
                    self._add(("ne", P({(i,): 1})))

    def _addge(self, p):
        self.ge = self.ge + (p,)
        self._memo = {}
        # atom >= const>=0
        if len(p.t) <= 2:
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and p.t[ms[0]] > 0 and p.t.get((), 0) <= 0:
                self.nonneg = self.nonneg | {ms[0][0]}
        # pending disequalities
        for q in self.neq:
            if q == p and (p - 1) not in self.ge:
                self.ge = self.ge + (p - 1,)
            elif -q == p and (p - 1) not in self.ge:
                self.ge = self.ge + (p - 1,)

    def obviously(self, p):
        c = p.const()
        if c is not None:
            return c >= 0
        for m, k in p.t.items():
            if not m:
                if k < 0:
                    return False
            elif k < 0 or not mono_nonneg(m, self):
                return False
        return True

    def ge0(self, p, depth=2):
        key = (p, depth)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = False
        r = self._ge0(p, depth)
        if not r and self.quant and depth >= 2:
            r = self._inst(p, depth)
        self._memo[key] = r
        return r

    def _inst(self, p, depth):
        """decide p >= 0 with instances of the quantified facts at the memory cells that p, or the facts about p, speak of"""
        global _inst_level
        if _inst_level >= 2:
            return False
        if self.eqs:
            p = self.reduce(p)
        ats = set(p.atoms())
        lds = {i for i in ats if _atoms[i][0] == "ld"}
        for g in self.ge:
            gs = g.atoms()
            if any(i in ats for i in gs):
                lds |= {i for i in gs if _atoms[i][0] == "ld"}
        if not lds:
            return False
        F = self
        _inst_level += 1
        try:
            done = set()
            for q in self.quant:
                _, n, body, lv, pats = q
                for i in sorted(lds):
                    for ty, base, k in pats:
                        a = _atoms[i]
                        if a[1] != ty:
                            continue
                        d = a[2] - base
                        if any(v.denominator != 1 or v % k for v in map(Fraction, d.t.values())) or any(_atoms[j][0] == "buf" for j in d.atoms()):
                            continue
                        x = d.scale(Fraction(1, k))
                        if (q, x) in done:
                            continue
                        done.add((q, x))
                        if self.ge0(x) and self.ge0(n - 1 - x):
                            c = subst(body, {_bv(lv): x})
                            F = F.add(c)
        finally:
            _inst_level -= 1
        if F is self:
            return False
        return F._ge0(p, depth)

    def at(self, x):
        """with the instances at x of every quantified fact whose range contains x"""
        F = self
        for _, n, body, lv, pats in self.quant:
            if self.ge0(x) and self.ge0(n - 1 - x):
                F = F.add(subst(body, {_bv(lv): x}))
        return F

    def _ge0(self, p, depth):
        if self.obviously(p):
            return True
        if p in self.ge:
            return True
        pt = p.t
        if len(pt) == 2:
            # k1*a*b - k2*b with k1 >= k2, b >= 0 and every factor of a at least 1
            (m1, k1), (m2, k2) = pt.items()
            if k1 < 0:
                m1, k1, m2, k2 = m2, k2, m1, k1
            if k1 > 0 and k1 >= -k2 and len(m1) > len(m2) and len(m1) > 1:
                rest = list(m1)
                for i in m2:
                    if i not in rest:
                        break
                    rest.remove(i)
                else:
                    if (not m2 or mono_nonneg(m2, self)) and all(self.ge0(P({(i,): 1, (): -1}), 0) for i in rest):
                        return True
        np_ = [(m, k) for m, k in pt.items() if k < 0]
        for g in self.ge:
            gt = g.t
            if len(gt) < len(pt) - 2:
                continue
            for m, k in np_:
                if gt.get(m, 0) > k:
                    break
            else:
                # p - g obviously nonnegative, without building it
                hit = False
                for m, k in gt.items():
                    d = pt.get(m)
                    if d is None:
                        d = -k
                    else:
                        if m:
                            hit = True
                        d = d - k
                    if d < 0 or d and m and not mono_nonneg(m, self):
                        break
                else:
                    if hit and all(m in gt or not m or mono_nonneg(m, self) for m in pt):
                        return True
        if depth <= 0:
            return False
        negm = [m for m, k in p.t.items() if k < 0]
        ineg = [i for i in p.atoms() if _atoms[i][0] in ("smax", "smin", "div", "mod")]
        for i in ineg:
            a = _atoms[i]
            if a[0] in ("smax", "smin"):
                lin = [m for m in p.t if i in m]
                if len(lin) == 1 and len(lin[0]) == 1:
                    k = p.t[lin[0]]
                    rest = p - P({lin[0]: k})
                    vs = [rest + x.scale(k) for x in a[1:]]
                    need_all = (a[0] == "smax") == (k < 0)
                    if (all if need_all else any)(self.ge0(v, depth - 1) for v in vs):
                        return True
            if a[0] in ("div", "mod") and (i,) in p.t and a[2].const() is not None and a[2].const() > 0:
                k = p.t[(i,)]
                d = a[2].const()
                rest = p - P({(i,): k})
                if a[0] == "div" and self.obviously(a[1]):
                    # (x-d+1)/d <= floor(x/d) <= x/d
                    b = rest + (a[1].scale(qd(k, d)) if k < 0 else (a[1] - (d - 1)).scale(qd(k, d)))
                    if self.ge0(b, depth - 1):
                        return True
                if a[0] == "mod":
                    b = rest + (P.c(k * (d - 1)) if k < 0 else ZERO)
                    if self.ge0(b, depth - 1):
                        return True
        for g in self.ge:
            # subtract a nonnegative multiple of a known fact
            for m in negm:
                if m in g.t and g.t[m] < 0:
                    k = qd(p.t[m], g.t[m])
                    q = p - g.scale(k)
                    if len(q.t) <= len(p.t) + 3 and self.ge0(q, depth - 1):
                        return True
                # product of fact with a nonneg atom
                if m and len(m) > 1:
                    for gm, gc in g.t.items():
                        if gc < 0 and gm and len(gm) < len(m):
                            rest = list(m)
                            ok = True
                            for i in gm:
                                if i in rest:
                                    rest.remove(i)
                                else:
                                    ok = False
                                    break
                            if ok and rest and mono_nonneg(tuple(rest), self):
                                q = p - (g * P({tuple(rest): 1})).scale(qd(p.t[m], gc))
                                if len(q.t) <= len(p.t) + 3 and self.ge0(q, depth - 1):
                                    return True
        # p const-negative part only
        if () in p.t and p.t[()] < 0 and not [m for m in negm if m]:
            for g in self.ge:
                if g.t.get((), 0) < 0:
                    common = [m for m in g.t if m and m in p.t]
                    if common:
                        for m in common:
                            k = qd(p.t[m], g.t[m])
                            if k > 0:
                                q = p - g.scale(k)
                                if self.ge0(q, depth - 1):
                                    return True
        return False

    def eq0(self, p):
        if not p.t:
            return True
        if p in self.eqs or -p in self.eqs:
            return True
        q = self.reduce(p)
        if not q.t:
            return True
        return False

    def reduce(self, p, n=6):
        """Rewrite p using the known equalities (orient each towards removing one atom)."""
        for _ in range(n):
            ch = False
            for e in self.eqs:
                r = _orient(e)
                if r is None:
                    continue
                i, rhs = r
                if i in all_atoms(p):
                    p2 = subst(p, {i: rhs})
                    if p2 != p:
                        p = p2
                        ch = True
            if not ch:
                return p
        return p

    def decide(self, c):
        """True / False / None"""
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if c in self.conds:
            return True
        n = cnot(c)
        if n in self.conds:
            return False
        if k in ("eq", "ne") and len(c) == 2 and isinstance(c[1], P):
            a = c[1].single()
            if a and (a[0] == "heap" and str(a[1]).startswith("new") or a[0] == "alloca"):
                return k == "ne"        # addresses of objects
        if k == "ge":
            if self.ge0(c[1]):
                return True
            if self.ge0(-c[1] - 1):
                return False
            if self.eqs:
                q = self.reduce(c[1])
                if q != c[1]:
                    if self.ge0(q):
                        return True
                    if self.ge0(-q - 1):
                        return False
        elif k in ("eq", "ne"):
            p = c[1]
            r = None
            if self.eq0(p):
                r = True
            elif p in self.neq or -p in self.neq:
                r = False
            elif self.ge0(p - 1) or self.ge0(-p - 1):
                r = False
            elif self.ge0(p) and self.ge0(-p):
                r = True
            elif self.eqs:
                q = self.reduce(p)
                cc = q.const()
                if cc is not None:
                    r = (cc == 0)
                elif self.ge0(q - 1) or self.ge0(-q - 1):
                    r = False
            if r is None:
                return None
            return r if k == "eq" else not r
        elif k == "and":
            rs = [self.decide(x) for x in c[1:]]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        elif k == "or":
            rs = [self.decide(x) for x in c[1:]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        elif k == "f":
            for o in self.others:
                if o[0] == "f" and o[2:] == c[2:]:
                    if o[1] == "oeq":
                        if c[1] in ("ole", "oge", "ueq", "ule", "ord"):
                            return True
                        if c[1] in ("olt", "one", "uno", "une"):
                            return False
                    if o[1] == "olt":
                        if c[1] in ("ole", "one", "une", "ult", "ule", "ord"):
                            return True
                        if c[1] in ("oeq", "ueq", "uno"):
                            return False
        return None


_inst_level = 0


def _bv(lv):
    return list(P.a("bv", lv).atoms())[0]


def _triggers(c):
    """("all", n, body, level) -> with the cells body[level] reads: (type, address at 0, stride)"""
    _, n, body, lv = c
    b = _bv(lv)
    pats = []
    for i in all_atoms(body):
        a = _atoms[i]
        if a[0] != "ld" or a[1] != "i64" or not isinstance(a[2], P):
            continue
        k = a[2].t.get((b,))
        if k is None or any(b in all_atoms(P({m: 1})) for m in a[2].t if m and m != (b,)):
            continue
        if k.denominator != 1 or k <= 0:
            continue
        pt = (a[1], P({m: v for m, v in a[2].t.items() if m != (b,)}), int(k))
        if pt not in pats:
            pats.append(pt)
    if not pats:
        return None
    return (c, n, body, lv, tuple(pats))


def _orient(e):
    """e == 0 solved for one linear atom of coefficient +-1 -> (atom id, rhs)."""
    best = None
    for m, c in e.t.items():
        if len(m) == 1 and abs(c) == 1:
            i = m[0]
            if any(i in mm for mm in e.t if mm != m):
                continue
            rhs = (e - P({m: c})).scale(qd(-1, c))
            if i in all_atoms(rhs):
                continue
            # prefer eliminating the length of a vector, then the atom created last
            k = (_atoms[i][0] == "vsize", i)
            if best is None or k > best[2]:
                best = (i, rhs, k)
    return best and best[:2]
