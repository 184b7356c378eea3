"""Equally spaced numbers: linspace, and ranges of indices."""
import os, re
from fractions import Fraction
from spec import *
from framework import *
from matx import Machine, Unknown as MUnknown
from mateval import *
from witness import Env
from poly import *

PROBE = os.path.join(VERIF, "probe_gen", "gen.cc")
SRCS = ["src/indices/linspace_d.cc", "src/indices/linspace_z.cc"]
RES = (("arg", 0), 0)


def run(ctx):
    ctx.rule("spacing", "linspace(a,b,n) has n values (or tensors, along a last dimension) a + (b-a) i/(n-1), from a to b; a alone for n=1")
    ctx.rule("list", "a list igen << a << b ... makes Indices, and a list of numbers a tensor of one dimension, of these elements in this order")
    ctx.rule("list equality", "a list compared with a vector is equal exactly when it is as long and all elements are equal")
    ctx.rule("index range", "Indices::range(a,b,s) lists a, a+s, ... up to b, and nothing when b<a")
    n = 0
    for fn in ctx.get(r"^tensor::linspace\(", "mat", SRCS):
        n += 1
        spacing(ctx, fn)
    if n < 4:
        raise AnalysisError("%d linspace functions found" % n)
    for fn in ctx.get(r"^tensor::Indices::range\(", "core", ["src/indices/indices.cc"]):
        index_range(ctx, fn)
    n = 0
    for fn in ctx.get(r"^probe::list_\w+\(", "vec", [PROBE]):
        n += 1
        if "list_iota" in fn.dem:
            iota(ctx, fn)
        else:
            listed(ctx, fn)
    if n < 18:
        raise AnalysisError("%d lists found" % n)
    for fn in ctx.get(r"^probe::same_\w+\(", "vec", [PROBE]):
        same(ctx, fn)


# ---------------------------------------------------------------- linspace
def prod(d):
    n = 1
    for x in d:
        n *= x
    return n


class Cols(Eval):
    """arrays of any rank, the first index fastest; lists of extents are arrays of integers"""

    def op_dimensions(self, a):
        a = self.ev(a)
        return Mat((len(a.d),), a.d)

    def op_reshape(self, a, *d):
        a, d = self.ev(a), [self.ev(x) for x in d]
        if len(d) == 1 and isinstance(d[0], Mat):
            d = d[0].a
        if any(not isinstance(x, int) for x in d):
            raise NoEval("extents")
        if prod(d) != len(a.a):
            raise Broken("sizes")
        return Mat(d, a.a)

    def op_ctor(self, nm, *a):
        v = [self.ev(x) for x in a]
        if nm.endswith("Indices") and len(v) == 1 and isinstance(v[0], Mat):
            return v[0]
        if nm.endswith("Tensor") and len(v) == 1 and isinstance(v[0], Mat):
            return Mat(v[0].a, [float("nan")] * prod(v[0].a))
        return Eval.op_ctor(self, nm, *a)

    def join(self, a, b):
        a, b = self.ev(a), self.ev(b)
        if not isinstance(a, Mat):
            raise NoEval("list")
        return Mat((len(a.a) + (len(b.a) if isinstance(b, Mat) else 1),), a.a + (b.a if isinstance(b, Mat) else [b]))

    def spots(self, a, ix):
        out = [0]
        s = 1
        for p, d in zip(self.positions(a, ix), a.d):
            out = [o + s * x for x in p for o in out]
            s *= d
        return out

    def pick(self, a, ix):
        if len(ix) == 1:
            return Eval.pick(self, a, ix)
        return a.a[self.spots(a, ix)[0]]

    def part(self, a, ix):
        return Mat([len(p) for p in self.positions(a, ix)], [a.a[k] for k in self.spots(a, ix)])

    def op_put(self, a, ix, v):
        a, v = self.ev(a).copy(), self.ev(v)
        ix = [self.ev(x) for x in ix]
        if len(ix) == 1 and isinstance(ix[0], int) and len(a.d) != 1:
            at = [ix[0] % len(a.a)] if a.a else self.no()
        else:
            at = self.spots(a, ix)
        v = v.a if isinstance(v, Mat) else [v] * len(at)
        if len(v) != len(at):
            raise Broken("sizes of a part")
        for k, x in zip(at, v):
            a.a[k] = x
        return a

    def no(self):
        raise Broken("index")


setattr(Cols, "op_operator<<", Cols.join)


def spacing(ctx, fn):
    cx = "complex" in fn.dem
    scalar = "Tensor" not in fn.dem.split("(", 1)[1]
    try:
        ps = Machine(fn.f, fn.unit).run()
    except (MUnknown, RecursionError, KeyError, IndexError, TypeError) as e:
        return ctx.unk(fn, "spacing", "%s: %s" % (type(e).__name__, e))
    ctx.functions.add(fn.dem)
    ctx.cases += len(ps)
    why = None
    shapes = [()] if scalar else [(1,), (2,), (3,), (2, 3), (1, 1), (2, 1, 2)]
    for d in shapes:
        for n in (0, 1, 2, 3, 4, 7):
            try:
                e = sample(ctx, ps, d, n, cx, scalar)
            except Broken as x:
                e = "n=%d, extents %s: %s" % (n, d, x)
            except (NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, OverflowError) as x:
                why = "%s: %s" % (type(x).__name__, str(x)[:120])
                continue
            if e:
                return ctx.bad(fn, "spacing", e, key=("spacing",))
    if why:
        return ctx.unk(fn, "spacing", why)
    ctx.ok(fn, "spacing")


def sample(ctx, ps, d, n, cx, scalar):
    ctx.cases += 1
    num = lambda k: complex(0.5 * k * k - 3, 1 - 0.25 * k) if cx else Fraction(k * k - 7, 3)
    m = prod(d)
    a, b = [num(k) for k in range(m)], [num(2 * k + 5) for k in range(m)]
    leaf = {("T0", ("g", "_ZN6tensor4igenE"), 0): Mat((0,), [])}
    if scalar and cx:
        leaf.update({("arg", 1): a[0].real, ("arg", 2): a[0].imag, ("arg", 3): b[0].real, ("arg", 4): b[0].imag, ("arg", 5): n})
    elif scalar:
        leaf.update({("arg", 1): a[0], ("arg", 2): b[0], ("arg", 3): n})
    else:
        leaf.update({("T0", ("arg", 1), 0): Mat(d, a), ("T0", ("arg", 2), 0): Mat(d, b), ("arg", 3): n})
    F = Follow(ps, Cols(leaf))
    for p in F.outcome():
        if F.refused(p):
            return "n=%d is refused" % n
        got = F.at(p).ev(p.mem.get(RES))
        if not isinstance(got, Mat):
            raise NoEval("result")
        dims = (n,) if m == 1 else tuple(d) + (n,)
        if tuple(got.d) != dims:
            return "for n=%d and extents %s the result has extents %s" % (n, tuple(d), tuple(got.d))
        for i in range(n):
            for j in range(m):
                t = Fraction(i, n - 1) if n > 1 else Fraction(0)
                w = a[j] + (b[j] - a[j]) * (float(t) if cx else t)
                g = got.a[i * m + j]
                if g != g or abs(g - w) > 1e-9:
                    return "value %d of %d between %s and %s is %s" % (i, n, a[j], b[j], "never set" if g != g else g)


# ---------------------------------------------------------------- index ranges
def index_range(ctx, fn):
    lo, hi, st = [x.v for x in fn.sig.args]

    def specf(c, F):
        if F.ge0(-st):
            return None
        F = F.add(cge(st - 1))
        n = P.a("div", hi - lo, st) + 1
        out = []
        if not F.ge0(hi - lo):
            out.append(dict(dims=None, size=ZERO, pieces=[], facts=F.add(cge(lo - 1 - hi))))
        if not F.ge0(lo - 1 - hi):
            out.append(dict(dims=None, size=n, facts=F.add(cge(hi - lo)).add(cge(n - 1)), pieces=[SPiece([n], lambda i: (lo + st * i, ZERO))]))
        return out
    check_tensor_result(ctx, fn, "index range", specf, "long", tens=[])


def same(ctx, fn):
    """equality of a list written out and a vector"""
    rule = "list equality"
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, rule, err)
    n = len(fn.sig.args) - 1
    V = P.a("vsize", fn.sig.args[0].v)
    unk = None
    for c in cases:
        if c.outcome != "ret":
            continue
        on_size = [x for x in c.facts.conds if V.atoms() <= all_atoms(x) <= all_atoms(V)]
        rest = [x for x in c.facts.conds if x not in on_size and x[0] != "T" and not all(atom(i)[0] == "kx" for i in all_atoms(x))]
        sizes = [k for k in range(n + 4) if not any(x == FALSE for x in (Env({list(V.atoms())[0]: P.c(k)}, {}).cond(x) for x in on_size))]
        other = [k for k in sizes if k != n]
        r = c.ret
        mc = None
        if isinstance(r, tuple) and r[0] in ("eq", "ne") and len(r) == 2:
            a = [atom(i) for i in r[1].atoms()]
            mc = a[0] if len(a) == 1 and a[0][0] == "memcmp" and r[1] == P.a(*a[0]) else None
        if r == TRUE:
            if other and all(x[0] == "all" for x in rest):
                return ctx.bad(fn, rule, "a vector of %d elements may equal a list of %d" % (other[0], n), c.loc, key=("same",))
            if not rest and n in sizes:
                return ctx.bad(fn, rule, "equal without any comparison", c.loc, key=("same",))
            full = [x for x in rest if x[0] == "all"]
            if len(full) == 1 and isinstance(full[0][1], P) and full[0][1].const() is not None and full[0][1].const() < n and len(rest) == 1:
                return ctx.bad(fn, rule, "%s of %d elements are compared" % (full[0][1].const(), n), c.loc, key=("same",))
        elif r == FALSE:
            if not rest and n in sizes:
                return ctx.bad(fn, rule, "a vector of %d elements is never equal to a list of as many" % n, c.loc, key=("same",))
            if n in sizes and rest and all(x[0] == "all" and isinstance(x[1], P) and x[1].const() == n and x[2][:2] == ("f", "oeq") for x in rest):
                return ctx.bad(fn, rule, "a vector with the %d elements of the list is called different" % n, c.loc, key=("same",))
        elif mc:
            if other and not rest:
                return ctx.bad(fn, rule, "a vector of %d elements may equal a list of %d" % (other[0], n), c.loc, key=("same",))
            if r[0] == "ne" or mc[3].const() is not None and mc[3].const() != 8 * n:
                return ctx.bad(fn, rule, "the elements compared are others than the %d of the list, or the outcome is reversed" % n, c.loc, key=("same",))
        else:
            unk = "returns %s" % show(r)[:100]
    if unk:
        return ctx.unk(fn, rule, unk)
    ctx.ok(fn, rule)


def listed(ctx, fn):
    """the tensor or index list made of the elements written"""
    obj = fn.sig.args[0].v
    elty = "long" if "Indices" in fn.dem else "std::complex<double>" if "complex" in fn.dem else "double"
    els = [(x.v, x.vals[1] if elty.startswith("std") else ZERO) for x in fn.sig.args[1:]]
    n = P.c(len(els))
    ps = lambda: [SPiece([ONE], lambda i, v=v: v, start=P.c(q)) for q, v in enumerate(els)]
    check_tensor_result(ctx, fn, "list", lambda c, F: dict(dims=None if elty == "long" else [n], size=n, pieces=ps()), elty, obj=obj, tens=[])


def iota(ctx, fn):
    """iota(a, b, s) is Indices::range(a, b, s)"""
    w, cases, err = ctx.summary(fn)
    if cases is None:
        return ctx.unk(fn, "index range", err)
    a = [x.v for x in fn.sig.args]
    for c in cases:
        if c.outcome != "ret":
            continue
        calls = [e for e in c.eff if e[0] == "call" and "Indices::range(" in e[1]]
        if len(calls) != 1:
            return ctx.unk(fn, "index range", "%d calls of Indices::range" % len(calls))
        for got, want, nm in zip(calls[0][2][1:], a[1:], ("start", "end", "step")):
            if got != want:
                return ctx.bad(fn, "index range", "the %s of the range is %s" % (nm, show(got)), key=("iota", nm))
    ctx.ok(fn, "index range")
