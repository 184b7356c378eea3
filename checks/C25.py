"""Random numbers: ranges of all generators, and the sequence that a seed fixes."""
import os, random, re
from framework import *
import build, words
from spec import *
from models import Models
from words import R, Ranges, Equations, Unknown, sgn

PROBE = os.path.join(VERIF, "probe_rnd", "rand.cc")
SRCS = ["src/rand/rand.cc", "src/rand/rand64.cc", PROBE]
M = (1 << 64) - 1
TOP = 1 - 2.0 ** -53
STATE, MTI = "mt", "mti"


def run(ctx):
    ctx.rule("range", "every random number lies in the range asked for, and no part of this range is left out: [0,1) for real numbers and each part of complex ones, [0,n) and [a,b) for integers")
    ctx.rule("parts", "the parts of a complex random number are drawn one after the other")
    ctx.rule("seed", "setting a seed rewrites the whole state of the generator from this seed alone, and so does RANDSEED")
    ctx.rule("sequence", "the words drawn after a seed are those of the 64-bit Mersenne Twister MT19937-64")
    ctx.rule("fill", "randomize() and random() draw a new number for every element, in a tensor of the extents asked for")
    fill(ctx)
    fns = {}
    for fn in ctx.get(r"tensor::(genrand_\w+|init_genrand|set_seed|rand_reseed|rand<.*>)\(", "rnd", SRCS):
        fns[re.sub(r"^.*?tensor::(?=genrand_|init_genrand|set_seed|rand_reseed|rand<)", "", fn.dem)] = fn
    A = Analysis(ctx, fns)
    n = 0
    for name, f in A.table():
        if name in fns:
            n += 1
            fn = fns[name]
            ctx.functions.add(fn.dem)
            rule = f.__name__ if f.__name__ in ("seed", "sequence") else "range"
            try:
                w = f(fn)
                if w:
                    ctx.bad(fn, rule, w, key=(rule, name))
                else:
                    ctx.ok(fn, rule)
            except (Unknown, KeyError, IndexError, TypeError, AttributeError, ValueError, OverflowError, RecursionError) as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:120]))
    if n < 10:
        raise AnalysisError("%d random number functions found" % n)


def draws(e, depth=0):
    """the calls to rand among the effects, with the number of loops around them"""
    out = []
    for x in e:
        if x[0] == "for":
            for cs, body in x[3]:
                out += draws(body, depth + 1)
        elif x[0] == "call" and re.search(r"tensor::(rand<|genrand_)", x[1]):
            out.append((depth, x))
    return out


def drawn(w, st, i, m, a):
    """a random number: opaque, without effects on anything the caller sees"""
    d = m.string
    st.eff.append(("call", d, [], i.get("loc"), i["id"], P.a("one")))
    return ("agg", P.a("drawn", 0), P.a("drawn", 1)) if "complex" in d else P.a("drawn")


def fill(ctx):
    n = 0
    for fn in ctx.get(r"^tensor::Tensor<(double|std::complex<double>)>::(random|randomize)\("):
        n += 1
        elty = "std::complex<double>" if "complex" in fn.dem else "double"
        cplx = elty != "double"
        dims = [a.v for a in fn.sig.args] if "Indices" not in fn.dem and "randomize" not in fn.dem else None
        size = ONE
        for x in dims or []:
            size = size * x
        obj = None
        if "randomize" in fn.dem:
            t = Ten(fn.sig.this, elty)
            ext, size, obj, tens = t, t.size, t.addr, [t]
        elif dims is None:
            d = fn.sig.args[0].v
            ext, size, tens = Ten(d - 8, "double"), P.a("total", ("vec", P.a("buf", d))), []
        else:
            ext, tens = dims, []

        def specf(c, F):
            if dims:
                if any(F.ge0(-x - 1) for x in dims):
                    return None     # extents are never negative
                for x in dims:
                    F = F.add(cge(x))
                F = F.add(cge(size))
            ds = draws(c.eff)
            if any(x[0] == 0 for x in ds):
                return ("draw", REFUTED, "one random number is drawn for all elements", c.loc)
            if len(ds) > 1:
                raise Unknown("%d draws" % len(ds))
            if any(("complex" in x[1][1]) != cplx for x in ds):
                raise Unknown("parts drawn on their own")
            v = (P.a("drawn", 0), P.a("drawn", 1)) if cplx else (P.a("drawn"), ZERO)
            return dict(dims=ext, size=size, facts=F, pieces=[SPiece([size], lambda i: v)])
        check_tensor_result(ctx, fn, "fill", specf, elty, obj=obj, tens=tens,
                            models=Models(extra=[(re.compile(r"tensor::rand<(double|std::complex<double>)>\(\)"), drawn)]), key="drawn")
    if n < 16:
        raise AnalysisError("only %d random tensor functions found" % n)


def within(got, lo, hi, what, reach=None):
    if got.lo < lo or got.hi > hi:
        return "%s may be %s" % (what, got.hi if got.hi > hi else got.lo)
    if reach and (got.lo > reach[0] or got.hi < reach[1]):
        return "%s is never more than %s" % (what, got.hi) if got.hi < reach[1] else "%s is never less than %s" % (what, got.lo)


class Analysis:
    def __init__(self, ctx, fns):
        self.ctx, self.fns, self.memo = ctx, fns, {}

    # ------------------------------------------------------------ ranges
    def contract(self, d):
        d = re.sub(r"^.*?tensor::(?=genrand_|rand<|to_complex)", "", d)
        if d.startswith("genrand_int64("):
            return lambda a: R(0, M, 64)
        if d.startswith("to_complex("):
            return lambda a: (a[0], a[1]) if len(a) == 2 else self.no()
        if d in ("floor", "std::floor(double)") or d.startswith("llvm.floor"):
            import math
            return lambda a: R(float(math.floor(a[0].lo)), float(math.floor(a[0].hi)))
        if d in self.fns and not d.startswith("init"):
            return lambda a: self.range(d, a)
        return None

    def no(self):
        raise Unknown("complex number")

    def range(self, name, args, depth=[0]):
        key = (name,) + tuple((x.lo, x.hi) for x in args)
        if key not in self.memo:
            if depth[0] > 8:
                raise Unknown("recursion")
            depth[0] += 1
            try:
                fn = self.fns[name]
                self.memo[key] = Ranges(fn.f, fn.unit, self.contract).run(args)
                self.ctx.cases += 1
            finally:
                depth[0] -= 1
        return self.memo[key]

    def table(self):
        U = lambda name, lo, hi, reach=None: (name, lambda fn: within(self.range(name, []), lo, hi, "the number", reach))
        out = [("genrand_int63()", lambda fn: within(self.range("genrand_int63()", []).unsigned(), 0, (1 << 63) - 1, "the number", (0, (1 << 63) - 1))),
               U("genrand_res53()", 0, TOP, (0, TOP)), U("genrand_real1()", 0, 1, (0, 1)), U("genrand_real2()", 0, TOP, (0, TOP)), U("genrand_real3()", 5e-324, TOP, (1e-9, 1 - 1e-9)),
               U("rand<double>()", 0, TOP, (0, 1 - 1e-9)), U("rand<float>()", 0, 1 - 2.0 ** -24, (0, 1 - 1e-6)), ("rand<std::complex<double>>()", self.cplx),
               ("rand<unsigned long>()", lambda fn: within(self.range("rand<unsigned long>()", []).unsigned(), 0, M, "the number", (0, M))),
               ("rand<unsigned int>()", lambda fn: within(self.range("rand<unsigned int>()", []).unsigned(), 0, M >> 32, "the number", (0, M >> 32))),
               ("rand<long>()", lambda fn: within(self.range("rand<long>()", []).signed(), -(1 << 63), M >> 1, "the number", (0, M >> 1))),
               ("rand<int>()", lambda fn: within(self.range("rand<int>()", []).signed(), -(1 << 31), (1 << 31) - 1, "the number", (0, (1 << 31) - 1)))]
        for ty, w in (("int", 32), ("long", 64), ("unsigned long", 64)):
            out.append(("rand<%s>(%s)" % (ty, ty), lambda fn, ty=ty, w=w: self.upto(ty, w)))
            out.append(("rand<%s>(%s, %s)" % (ty, ty, ty), lambda fn, ty=ty, w=w: self.between(ty, w)))
        for ty in ("double", "float"):
            out.append(("rand<%s>(%s)" % (ty, ty), lambda fn, ty=ty: self.real(ty)))
            out.append(("rand<%s>(%s, %s)" % (ty, ty, ty), lambda fn, ty=ty: self.real2(ty)))
        out += [("init_genrand(unsigned long)", self.seed), ("set_seed(unsigned long)", self.seed), ("rand_reseed()", self.seed), ("genrand_int64()", self.sequence)]
        return out

    def cplx(self, fn):
        r = self.range("rand<std::complex<double>>()", [])
        if not isinstance(r, tuple):
            raise Unknown("complex number")
        for x, p in zip(r, ("real", "imaginary")):
            w = within(x, 0, TOP, "the %s part" % p, (0, 1 - 1e-9))
            if w:
                return w
        n = sum(1 for b in fn.f["blocks"] for i in b["ins"] if i["op"] == "call" and re.search(r"::(genrand_\w+|rand<double>)\(\)", fn.unit.dem(i.get("callee", "")) or ""))
        if n == 1 and len(fn.f["blocks"]) == 1:
            self.ctx.bad(fn, "parts", "both parts come from one number", key=("parts",))
        else:
            self.ctx.ok(fn, "parts")

    def upto(self, ty, w):
        name = "rand<%s>(%s)" % (ty, ty)
        top = (1 << w) - 1 if ty[0] == "u" else (1 << (w - 1)) - 1
        r = self.range(name, [R(0, 0, w)])
        if (r.lo, r.hi) != (0, 0):
            return "a number below 0 may be %s" % r.hi
        for n in [1, 2, 3, 7, 10, 100, 65536, 1000003, (1 << 31) - 1, (1 << 31) + 1, (1 << 53) + 1, (1 << 62), top]:
            if n <= top:
                r = self.range(name, [R(n, n, w)])
                r = r.unsigned() if ty[0] == "u" else r.signed()
                e = within(r, 0, n - 1, "a number of [0,%d)" % n, (0, n - 1))
                if e:
                    return e

    def between(self, ty, w):
        name = "rand<%s>(%s, %s)" % (ty, ty, ty)
        for a, b in [(0, 1), (0, 10), (5, 9), (1, 2), (3, 1000003), (-3, 4), (-7, -2), (-1, 1), (-(1 << 30), 1 << 29), (7, 1 << 30), (4, 4)] + ([(0, 1 << 40), (-5000000000, 5000000000), (1 << 33, (1 << 62) + 5)] if w == 64 else []):
            if a < 0 and ty[0] == "u":
                continue
            r = self.range(name, [R(a, a, w), R(b, b, w)])
            r = r.unsigned() if ty[0] == "u" else r.signed()
            b += a == b     # an empty range gives its start
            e = within(r, a, b - 1, "a number of [%d,%d)" % (a, b), (a, b - 1))
            if e:
                return e

    def real(self, ty):
        name = "rand<%s>(%s)" % (ty, ty)
        for u in (1.0, 2.0, 0.5, 3.0, 10.0, 1e30, 1e-30):
            u = words.single(u) if ty == "float" else u
            e = within(self.range(name, [R(u, u)]), 0, u, "a number of [0,%g)" % u, (0, u * (1 - 1e-6)))
            if e:
                return e

    def real2(self, ty):
        name = "rand<%s>(%s, %s)" % (ty, ty, ty)
        for a, b in ((0.0, 1.0), (1.0, 2.0), (-1.0, 1.0), (-4.0, -2.0), (2.0, 10.0)):
            e = within(self.range(name, [R(a, a), R(b, b)]), a, b, "a number of [%g,%g)" % (a, b), (a, b - (b - a) * 1e-6))
            if e:
                return e

    # ------------------------------------------------------------ state and sequence
    def names(self, fn):
        g = {x[1].split("::")[-1]: x[0] for x in fn.unit.j["globals"] if len(x) > 1}
        if STATE not in g or MTI not in g:
            raise Unknown("state of the generator")
        return g[STATE], g[MTI]

    def seed(self, fn):
        nm = re.sub(r"^.*tensor::", "", fn.dem)
        if nm.startswith("set_seed"):
            for w in Equations(fn.f, fn.unit).run():
                if [c for c in w.calls if "init_genrand" not in c[0]] or w.eqs:
                    raise Unknown("effects")
                if not w.calls:
                    return "the seed is not set" + (", when %s" % (w.conds,) if w.conds else "")
                a = w.calls[-1][1][0]
                if w.conds:
                    raise Unknown("conditions")
                for s in (0, 1, 5489, 0xfffffffff, M):
                    if words.ev(a, lambda t: s if t == ("arg", 0) else words.fails(t)) != s:
                        return "seed %d is taken for %d" % (s, words.ev(a, lambda t: s))
            return
        if nm.startswith("rand_reseed"):
            return self.reseed(fn)
        mt, mti = self.names(fn)
        ws = Equations(fn.f, fn.unit).run()
        if any(w.calls for w in ws):
            raise Unknown("calls")
        self.ctx.cases += sum(len(w.eqs) for w in ws)
        rnd = random.Random(7)
        for n, s in enumerate([0, 1, 5489, M] + [rnd.getrandbits(64) for _ in range(4)]):
            for pos in (0, 313, 312, 1, 155) if len(ws) > 1 or n == 0 else (200,):
                e = self.seeded(ws, mt, mti, s, pos, rnd)
                if e:
                    return e

    def seeded(self, ws, mt, mti, s, pos, rnd):
        """what a seed makes of a state of any words at this position"""
        old, vals, words_ = [], [], {}

        def leaf(t):
            if t == ("arg", 0):
                return s
            if t[0] == "new":
                return vals[t[2]]
            if t[0] == "old":
                old.append(t)
                return pos if t[2] == mti else words_.setdefault(t[1:], rnd.getrandbits(64))
            raise Unknown("a word")
        w, cells = None, {}
        for v in ws:
            vals, took = [], True
            for c, x in v.conds:
                need = newest(c)
                while len(vals) <= need:
                    vals.append(words.ev(v.eqs[len(vals)][1], leaf))
                if words.ev(c, leaf) & 1 != x:
                    took = False
                    break
            if took:
                w = v
                break
        if w is None:
            raise Unknown("no way")
        vals = []
        old.clear()
        for key, t in w.eqs:
            vals.append(words.ev(t, leaf))
            if key:
                cells[key] = vals[-1]
        x = [s]
        for k in range(1, 312):
            x.append((6364136223846793005 * (x[-1] ^ (x[-1] >> 62)) + k) & M)
        kept = ": it depends on the state before" if old else ""
        for k in range(312):
            if (mt, 8 * k) not in cells:
                return "word %d of the state is left as it was" % k
            if cells[(mt, 8 * k)] != x[k]:
                return "word %d of the state is not that of MT19937-64%s" % (k, kept)
        if cells.get((mti, 0), pos) != 312:
            return "after a seed at position %d the position is %s of 312" % (pos, cells.get((mti, 0), pos))
        if set(cells) - {(mt, 8 * k) for k in range(312)} - {(mti, 0)}:
            raise Unknown("other state")

    def reseed(self, fn):
        e = Equations(fn.f, fn.unit)
        ws = e.run()
        seen = False
        for w in ws:
            self.ctx.cases += 1
            inits = [k for k, (d, a) in enumerate(w.calls) if re.search(r"init_(genrand|by_array)\(|set_seed\(", d)]
            if not inits:
                return "on one way the generator is not seeded"
            env = [k for k, (d, a) in enumerate(w.calls) if d == "getenv"]
            conv = [k + 1 for k, (d, a) in enumerate(w.calls) if d in ("strtol", "__isoc23_strtol", "atoi", "atol", "strtoul", "__isoc23_strtoul", "strtoull", "__isoc23_strtoull")]
            if not env or not conv:
                continue
            d, a = w.calls[inits[-1]]
            if "by_array" in d:
                raise Unknown("RANDSEED")
            for s in (0, 1, 77, 123456):
                got = words.ev(a[0], lambda t: s if t[0] == "call" and t[2] in conv else words.fails(t))
                if got != s:
                    return "RANDSEED=%d gives the sequence of seed %d" % (s, got)
            if any(re.search(r"rand<|genrand_", d) for d, a in w.calls[inits[-1] + 1:]):
                return "numbers are drawn after the seed of RANDSEED is set"
            seen = True
        if not seen:
            raise Unknown("RANDSEED")

    def sequence(self, fn):
        mt, mti = self.names(fn)

        def effect(w, d, a):
            if "init_genrand(" in d:
                if any(k[0] in (mt, mti) for k in w.cells):
                    raise Unknown("seeded in between")
                w.seeded = a[0]
                w.eqs.append(((mti, 0), 312))
                w.cells[(mti, 0)] = 312
            elif re.search("abort|assert", d):
                raise Unknown(d)
        ws = Equations(fn.f, fn.unit, effect=effect).run()
        self.ctx.cases += sum(len(w.eqs) for w in ws)
        rnd = random.Random(11)
        A, UM, LM = 0xB5026F5AA96619E9, 0xFFFFFFFF80000000, 0x7FFFFFFF
        for pos in [0, 1, 2, 100, 155, 156, 310, 311, 312, 313]:
            for rep in range(3):
                st = [rnd.getrandbits(64) for _ in range(312)]
                if rep == 2:
                    st = [rnd.choice([0, 1, M, 1 << 63, 1 << 31, (1 << 31) - 1, x]) for x in st]
                vals, beyond = [], []

                def leaf(t):
                    if t[0] == "new":
                        return vals[t[2]]
                    if t[0] == "old":
                        o = sgn(words.ev(t[3], leaf), 64) if isinstance(t[3], tuple) else t[3]
                        if t[2] == mti and o == 0:
                            return pos
                        if t[2] == mt and o % 8 == 0:
                            if not 0 <= o // 8 < 312:
                                beyond.append(o // 8)
                                return 0
                            return st[o // 8]
                    raise Unknown("a word of elsewhere")

                took = []
                for w in ws:
                    vals = []
                    ok = True
                    try:
                        # conditions come before, between and after the equations: those on the entry state decide
                        for c, v in w.conds:
                            need = newest(c)
                            while len(vals) <= need:
                                vals.append(words.ev(w.eqs[len(vals)][1], leaf))
                            if words.ev(c, leaf) & 1 != v:
                                ok = False
                                break
                    except IndexError:
                        raise Unknown("conditions")
                    if ok:
                        took.append(w)
                if len(took) != 1:
                    raise Unknown("%d ways" % len(took))
                w = took[0]
                if pos == 313:
                    if getattr(w, "seeded", None) is None:
                        return "numbers are drawn before any seed is set"
                elif getattr(w, "seeded", None) is not None:
                    return "at position %d the generator is seeded again" % pos
                vals = []
                cells = {}
                beyond.clear()
                for key, t in w.eqs:
                    vals.append(words.ev(t, leaf))
                    if key:
                        cells[key] = vals[-1]
                out = words.ev(w.ret, leaf)
                if beyond:
                    return "at position %d of 312 word %d of the state is used" % (pos, beyond[0])
                x = list(st)
                if pos >= 312:
                    for k in range(312):
                        y = x[k] & UM | x[(k + 1) % 312] & LM
                        x[k] = x[(k + 156) % 312] ^ (y >> 1) ^ (A if y & 1 else 0)
                for k in range(312):
                    if cells.get((mt, 8 * k), st[k]) != x[k]:
                        return "position %d: the next word %d of the state is not that of MT19937-64" % (pos, k)
                p = pos if pos < 312 else 0
                if cells.get((mti, 0), pos) != p + 1:
                    return "after position %d comes position %s" % (p, cells.get((mti, 0), pos))
                if set(k for k in cells if k[0] not in (mt, mti)):
                    raise Unknown("other state")
                y = x[p]
                y ^= (y >> 29) & 0x5555555555555555
                y ^= (y << 17) & 0x71D67FFFEDA60000
                y ^= (y << 37) & 0xFFF7EEE000000000 & M
                y ^= y >> 43
                if out != y & M:
                    return "the number given at position %d is not that of MT19937-64" % p


def newest(t):
    if not isinstance(t, tuple):
        return -1
    return t[2] if t[0] == "new" else max([newest(x) for x in t] + [-1])

