"""Element by element operations of two sparse matrices: the merge of their rows as an inductive step over cursors."""
import itertools, random
from fractions import Fraction
from framework import *
import matx, merge
from matx import Unknown, isnum
from mateval import Eval, NoEval, Mat

TINY = 2.0 ** -70
OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}


def run(ctx):
    ctx.rule("extents", "operands of different extents are refused, and matrices without rows or columns give one without elements")
    ctx.rule("start", "before the first step the cursors stand at the first elements of both matrices, the result holds nothing, and its arrays are long enough")
    ctx.rule("step", "from any position of the cursors, one step takes the element with the smaller column (both when equal), combines it with the other or with zero, appends it unless it is zero, and moves on; at the end of both rows it closes the row")
    ctx.rule("result", "what is returned has the extents of the operands, the row starts, and exactly the columns and values appended")
    ctx.rule("mixed", "a real matrix combined with a complex one is converted, and the operands keep their order")
    jobs = []
    for op, nm in (("+", "plus"), ("-", "minus"), ("*", "times")):
        for z in ("double", "cdouble"):
            for fn in ctx.get(r"^tensor::operator\%s\(tensor::Sparse<[^,]*> const&, tensor::Sparse" % op, "mrg", ["src/generated/sparse_%s_tt_%s.cc" % (nm, z)]):
                jobs.append(lambda fn=fn, op=op, z=z: binop(ctx, fn, op, z == "cdouble"))
        for fn in ctx.get(r"^tensor::operator\%s\(tensor::Sparse<[^,]*> const&, tensor::Sparse" % op, "mrg", ["src/generated/sparse_%s_tr_cdouble.cc" % nm]):
            jobs.append(lambda fn=fn, op=op: mixed(ctx, fn, op))
    ctx.par(jobs)
    if len(jobs) != 12:
        raise AnalysisError("%d operators found, 12 expected" % len(jobs))


def guarded(ctx, fn, rule, f):
    ctx.functions.add(fn.dem)
    try:
        return f()
    except (Unknown, NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:120]))


# ---------------------------------------------------------------- mixed operands
def mixed(ctx, fn, op):
    def go():
        ps = merge.Cursors(fn.f, fn.unit).run()
        ctx.cases += len(ps)
        if len(ps) != 1 or ps[0].kind != "ret":
            raise NoEval("ways")
        t = ps[0].mem.get((("arg", 0), 0))
        if isinstance(t, tuple) and len(t) == 3 and t[0] in ("operator+", "operator-", "operator*") and t[0] != "operator" + op:
            return ctx.bad(fn, "mixed", "the operands are combined with %s" % t[0], key=("operator",))
        if not (isinstance(t, tuple) and t[0] == "operator" + op and len(t) == 3):
            raise NoEval("result is " + matx.show(t, 2))
        want = (("T0", ("arg", 1), 0), ("T0", ("arg", 2), 0))
        if t[1:] == want or (op != "-" and t[1:] == want[::-1]):
            ctx.ok(fn, "mixed")
        elif set(t[1:]) <= set(want):
            ctx.bad(fn, "mixed", "the operands are not combined in their order", key=("order",))
        else:
            raise NoEval("operands " + matx.show(t, 3))
    guarded(ctx, fn, "mixed", go)


# ---------------------------------------------------------------- numbers of terms in a state of the merge
class Addr:
    __slots__ = ("key", "off")

    def __init__(self, key, off):
        self.key, self.off = key, off

    def __add__(self, k):
        return Addr(self.key, self.off + k)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Addr):
            if o.key != self.key:
                raise NoEval("difference of pointers")
            return self.off - o.off
        return Addr(self.key, self.off - o)

    def __eq__(self, o):
        return isinstance(o, Addr) and (self.key, self.off) == (o.key, o.off)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self - o < 0

    def __le__(self, o):
        return self - o <= 0

    def __hash__(self):
        return hash((self.key, self.off))


class State(Eval):
    """two matrices (rows of (column, value) pairs) and positions: row, cursor in each, elements of the result"""

    def __init__(self, mats, R, C, w, r=0, p=(0, 0), q=0):
        super().__init__()
        self.mats, self.R, self.C, self.w, self.r, self.p, self.q = mats, R, C, w, r, p, q
        self.rs = [[sum(map(len, m[:i])) for i in range(R + 1)] for m in mats]
        self.flat = [[e for row in m for e in row] for m in mats]
        for k in (0, 1):
            n = len(self.flat[k])
            for d in (0, 1):
                self.leaf[("operator[]", ("T0", ("arg", k + 1), 0), d)] = (R, C)[d]
            for o in (16, 24):
                self.leaf[("size", ("T0", ("arg", k + 1), o))] = n
            self.leaf[("size", ("T0", ("arg", k + 1), 8))] = R + 1

    def left(self, k):
        return self.rs[k][self.r + 1] - self.p[k] if self.r < self.R else 0

    def op_ptr(self, base, off):
        o = self.ev(off)
        return self.ev(base[1]) + o if base[0] == "at" else Addr(base, o)

    def op_load(self, base, off):
        a = self.op_ptr(base, off)
        if not isinstance(a, Addr) or a.key[0] != "data" or a.key[1][0] != "arg" or a.key[1][1] not in (1, 2):
            raise NoEval("read of " + str(getattr(a, "key", a))[:60])
        k, o = a.key[1][1] - 1, a.key[2]
        if o == 8:
            l, w = self.rs[k], 8
        elif o == 16:
            l, w = [c for c, v in self.flat[k]], 8
        elif o == 24:
            l, w = [v for c, v in self.flat[k]], self.w
        else:
            raise NoEval("array")
        i, b = divmod(a.off, w)
        if i < 0 or i >= len(l) or b not in (0, 8):
            raise OutOfArray("%s of operand %d" % ({8: "row starts", 16: "columns", 24: "values"}[o], k + 1))
        if b:
            return l[i].imag if isinstance(l[i], complex) else 0
        return l[i].real if w == 16 else l[i]

    def op_floor(self, x):
        return self.ev(x)


class OutOfArray(NoEval):
    pass


def prefixed(p, head):
    """conditions and events of the way p from the head of the loop on"""
    ent = p.loops[head][0]
    return p.conds[len(ent[2]):]


# candidates for what a variable of the loop stands for, by kind
def candidates(entry, st):
    """[(name, function of a state)] that agree with the value on entry in every starting state"""
    if isinstance(entry, tuple) and entry[0] == "ptr" and entry[1][0] == "data" and isnum(entry[2]):
        key, c = entry[1], int(entry[2])
        if key[1][0] == "arg" and key[1][1] in (1, 2):
            k = key[1][1] - 1
            if key[2] == 8:
                return [("row", lambda s: Addr(key, c + 8 * s.r))]
            if key[2] == 16 and c == 0:
                return [("cursor", lambda s: Addr(key, 8 * s.p[k]))]
            if key[2] == 24 and c == 0:
                return [("cursor", lambda s: Addr(key, s.w * s.p[k]))]
        else:
            return [("elements", lambda s: Addr(key, c + 8 * s.q)), ("values", lambda s: Addr(key, c + 16 * s.q)), ("row", lambda s: Addr(key, c + 8 * s.r))]
    if isinstance(entry, tuple) and entry[0] == "ptr":
        raise NoEval("cursor of an unknown array")
    out = []
    for nm, f in NUMBERS:
        try:
            if all(s.ev(entry) == f(s) for s in st):
                out.append((nm, f))
        except NoEval:
            return []
    return out


NUMBERS = [("rows left", lambda s: s.R - s.r), ("elements left in row of the first", lambda s: s.left(0)), ("elements left in row of the second", lambda s: s.left(1)),
           ("row", lambda s: s.r), ("cursor of the first", lambda s: s.p[0]), ("cursor of the second", lambda s: s.p[1]), ("elements", lambda s: s.q),
           ("end of row of the first", lambda s: s.rs[0][min(s.r + 1, s.R)]), ("end of row of the second", lambda s: s.rs[1][min(s.r + 1, s.R)]),
           ("start of row of the first", lambda s: s.rs[0][s.r]), ("start of row of the second", lambda s: s.rs[1][s.r]),
           ("last row left", lambda s: s.R - s.r - 1), ("rows", lambda s: s.R), ("columns", lambda s: s.C)]


def samples(cx, op, tier):
    """matrices whose rows hold every pair of patterns, and every position of the cursors in them"""
    r = random.Random(5)
    pats = [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]
    num = lambda: r.choice([-3, -2, -1, 1, 2, 3, TINY, -TINY]) if not cx else complex(r.choice([-2, -1, 0, 1, 2]), r.choice([-2, -1, TINY, 1, 2]))
    out = []
    for x, y in itertools.product(pats, pats):
        for zero in (False, True):
            a = [(c, num()) for c in x]
            b = [(c, num()) for c in y]
            if zero:
                if op == "*":
                    a = [(c, 0) for c, v in a]
                else:
                    d = dict(b)
                    a = [(c, (-d[c] if op == "+" else d[c]) if c in d else v) for c, v in a]
            other = [[(c, num()) for c in r.choice(pats)] for _ in range(4)]
            out.append(([[a, other[0]], [b, other[1]]], 2, 3))
            if not zero:
                out.append(([[other[2], a], [other[3], b]], 2, 3))
            if (x, y) in ((( 0,), (0,)), ((), (0,)), ((), ())):
                out.append(([[a], [b]], 1, 1))
    for k in range(12):
        R, C = r.choice([(3, 5), (4, 7), (5, 4), (2, 9)])
        out.append(([[[(c, num()) for c in range(C) if r.random() < 0.6] for _ in range(R)] for _ in (0, 1)], R, C))
    return out


def starts(sam, w):
    return [State(m, R, C, w) for m, R, C in sam]


def positions(sam, w):
    for m, R, C in sam:
        s0 = State(m, R, C, w)
        for r in range(R):
            for p1 in range(s0.rs[0][r], s0.rs[0][r + 1] + 1):
                for p2 in range(s0.rs[1][r], s0.rs[1][r + 1] + 1):
                    if r and R > 1 and (p1, p2) != (s0.rs[0][r], s0.rs[1][r]) and r != R - 1:
                        continue
                    yield State(m, R, C, w, r, (p1, p2), max(0, p1 + p2 - 1))


def expected(s, op):
    """(new positions or None at the end, value appended or None, closes the row)"""
    n = s.left(0), s.left(1)
    if n == (0, 0):
        t = State.__new__(State)
        t.__dict__.update(s.__dict__)
        t.r = s.r + 1
        return t, None, True
    c = [s.flat[k][s.p[k]][0] if n[k] else s.C for k in (0, 1)]
    m = min(c)
    v = [s.flat[k][s.p[k]][1] if c[k] == m else 0 for k in (0, 1)]
    x = OPS[op](*v)
    t = State.__new__(State)
    t.__dict__.update(s.__dict__)
    t.p = tuple(s.p[k] + (c[k] == m) for k in (0, 1))
    t.q = s.q + (x != 0)
    return t, (m, x) if x != 0 else None, False


def same(a, b):
    return a == b


def binop(ctx, fn, op, cx):
    w = 16 if cx else 8

    def go():
        m = merge.Cursors(fn.f, fn.unit)
        ps = m.run()
        ctx.cases += len(ps)
        heads = {h for p in ps for h in p.loops} & set(m.heads)
        if len(heads) != 1:
            raise NoEval("%d loops" % len(heads))
        h = heads.pop()
        sam = samples(cx, op, ctx.tier)
        st = starts(sam, w)
        extents(ctx, fn, ps, h, w)
        inside = [p for p in ps if h in p.loops]
        ent = inside[0].loops[h][0]
        phis = sorted(ent[0])
        used = set()
        for p in inside:
            for c, x in prefixed(p, h):
                loopvars(c, h, used)
            for e in p.events:
                loopvars(e, h, used)
            if p.kind == "back":
                for k, v in p.ret.items():
                    loopvars(v, h, used)
        phis = [k for k in phis if k in used]
        cands = {k: candidates(ent[0][k], st) for k in phis}
        free = [k for k in phis if not cands[k]]
        pos = list(positions(sam, w))
        ways = [(prefixed(p, h), p, [e for e in p.events if mentions(e, h) or e[0] in ("copy", "sparse", "known")]) for p in inside]
        outs = [p for cs, p, ev in ways if p.kind == "ret"]
        if not outs and all(p.kind in ("back", "abort") for cs, p, ev in ways):
            return ctx.bad(fn, "step", "there is no way out of the merge", key=("end",))
        begin(ctx, fn, ways, h, st, w, op, phis, ent)
        if free:
            r = follow(ways, h, st, ent, op, w)
            if r is not None:
                return ctx.bad(fn, "step", r, key=("step",))
            raise NoEval("variable %s" % matx.show(ent[0][free[0]], 3))
        sift(cands, ways, h, st, ent[0], op)
        combos = list(itertools.product(*[cands[k] for k in phis]))
        best = None
        for combo in combos if len(combos) <= 400 else []:
            mp = {k: f for k, (nm, f) in zip(phis, combo)}
            r = induct(ctx, ways, h, mp, pos, op, w)
            if r is None:
                break
            if best is None or r[0] > best[0]:
                best = r
        else:
            # no reading of the variables carries the argument: the steps from the start show what is wrong
            r = follow(ways, h, st, ent, op, w)
            if r is not None:
                return ctx.bad(fn, "step", r, key=("step",))
            raise NoEval(best[1] if best else "too many readings of the variables")
        ctx.ok(fn, "step", "%d positions" % len(pos))
        ctx.ok(fn, "result")
    guarded(ctx, fn, "step", go)


def follow(ways, h, st, ent, op, w):
    """the steps one after the other from the start: what is wrong with the result, or None"""
    val, col, rst = roles(ways, h, None)
    for s in st:
        s.memo = {}
        try:
            cur = {k: s.ev(v) for k, v in ent[0].items()}
            mem = {Addr(k[0], k[1]): s.ev(v) for k, v in ent[1].items() if k[0] in (val, col, rst)}
            size = lambda: "%dx%d with %s and %s elements in the rows" % (s.R, s.C, [len(r) for r in s.mats[0]], [len(r) for r in s.mats[1]])
            for _ in range(len(s.flat[0]) + len(s.flat[1]) + 2 * s.R + 3):
                s.memo = {}
                for k, v in cur.items():
                    s.leaf[("h", h, k)] = v
                hit = [(p, ev) for cs, p, ev in ways if all(holds(s, c, x) for c, x in cs)]
                if len(hit) != 1:
                    raise NoEval("ways")
                p, ev = hit[0]
                if p.kind == "abort":
                    return "matrices of %s: the merge aborts" % size()
                if p.kind not in ("back", "ret"):
                    raise NoEval("way")
                new = {}
                for e in ev:
                    if e[0] == "store":
                        new[s.op_ptr(e[1], e[2])] = s.ev(e[3])
                mem.update(new)
                if p.kind == "ret":
                    break
                cur = {k: s.ev(v) for k, v in p.ret.items() if k in cur}
            else:
                return "matrices of %s: the merge does not come to an end" % size()
            want = [], [], [0]
            for r in range(s.R):
                d = [dict(m[r]) for m in s.mats]
                for c in sorted(set(d[0]) | set(d[1])):
                    x = OPS[op](d[0].get(c, 0), d[1].get(c, 0))
                    if x != 0:
                        want[0].append(x)
                        want[1].append(c)
                want[2].append(len(want[1]))
            s.q = len(want[1])
            if [mem.get(Addr(rst, 8 * i)) for i in range(s.R + 1)] != want[2]:
                return "matrices of %s: the row starts are wrong" % size()
            if [mem.get(Addr(col, 8 * i)) for i in range(s.q)] != want[1]:
                return "matrices of %s: the columns of the elements are wrong" % size()
            v = [mem.get(Addr(val, w * i)) for i in range(s.q)]
            if w == 16:
                v = [complex(x, mem.get(Addr(val, w * i + 8))) if x is not None and mem.get(Addr(val, w * i + 8)) is not None else None for i, x in enumerate(v)]
            if v != want[0]:
                return "matrices of %s: the values of the elements are wrong" % size()
            r = ending(s, p, val, col, rst, w)
            if r is not None:
                if r[1]:
                    raise NoEval(r[0])
                return "matrices of %s: %s" % (size(), r[0])
        except OutOfArray as e:
            return "matrices of %s: an element beyond the end of the %s is read" % (size(), e)
        except NoEval:
            continue
        finally:
            s.q = 0
    return None


def sift(cands, ways, h, st, entry, op):
    """drop the readings of the variables that do not go along with the first steps from the start"""
    for s in st[::5]:
        try:
            cur = {k: s.ev(entry[k]) for k in cands}
            for _ in range(8):
                s.memo = {}
                for k, v in cur.items():
                    s.leaf[("h", h, k)] = v
                hit = [p for cs, p, ev in ways if all(holds(s, c, x) for c, x in cs)]
                if len(hit) != 1 or hit[0].kind != "back":
                    break
                cur = {k: s.ev(v) for k, v in hit[0].ret.items() if k in cands}
                t = expected(s, op)[0]
                left = {k: [x for x in cands[k] if k not in cur or x[1](t) == cur[k]] for k in cands}
                if not all(left.values()) or t.r >= t.R:
                    break
                cands.update(left)
                t.memo, s = {}, t
        except NoEval:
            pass


def loopvars(t, h, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "h" and t[1] == h:
            out.add(t[2])
        else:
            for x in t:
                loopvars(x, h, out)


def mentions(e, h):
    s = set()
    loopvars(e, h, s)
    return bool(s)


def induct(ctx, ways, h, mp, pos, op, w):
    """None when the step is right from every position, else (positions passed, what is wrong, whether it is only not known)"""
    n = 0
    for s in pos:
        s.memo = {}
        for k, f in mp.items():
            s.leaf[("h", h, k)] = f(s)
        t, app, close = expected(s, op)
        where = "row %d, %d and %d elements left%s" % (s.r + 1, s.left(0), s.left(1), ", columns %s" % [s.flat[k][s.p[k]][0] for k in (0, 1) if s.left(k)] if not close else "")
        try:
            hit = [(p, ev) for cs, p, ev in ways if all(holds(s, c, x) for c, x in cs)]
        except OutOfArray as e:
            return n, "with %s, an element beyond the end of the %s is read" % (where, e), False
        except NoEval as e:
            return n, str(e), True
        if len(hit) != 1:
            return n, "%d ways from a position" % len(hit), True
        p, ev = hit[0]
        last = close and t.r == s.R
        if (p.kind == "back") == last:
            return n, "with %s, the merge %s" % (where, "goes on after the last row" if last else "ends before the last row is closed"), False
        if p.kind == "abort":
            return n, "with %s, the merge aborts" % where, False
        # what is stored
        got = {}
        try:
            for e in ev:
                if e[0] == "store":
                    a = s.op_ptr(e[1], e[2])
                    got[a] = s.ev(e[3])
            if p.kind == "back":
                new = {k: s.ev(v) for k, v in p.ret.items() if k in mp}
        except OutOfArray as e:
            return n, "with %s, an element beyond the end of the %s is read" % (where, e), False
        except NoEval as e:
            return n, str(e), True
        arrays = roles(ways, h, mp)
        if arrays is None:
            return n, "arrays of the result", True
        val, col, rst = arrays
        want = {}
        if close:
            want[Addr(rst, 8 * (s.r + 1))] = s.q
        if app is not None:
            want[Addr(col, 8 * s.q)] = app[0]
            if w == 16:
                want[Addr(val, 16 * s.q)], want[Addr(val, 16 * s.q + 8)] = complex(app[1]).real, complex(app[1]).imag
            else:
                want[Addr(val, 8 * s.q)] = app[1]
        if got != want:
            # a value that is dropped when the cursor does not move over it does no harm
            extra = {k: v for k, v in got.items() if k not in want}
            harmless = all(k in (Addr(val, w * s.q), Addr(val, w * s.q + 8), Addr(col, 8 * s.q)) and app is None for k in extra)
            if any(got.get(k) != v for k, v in want.items()) or not harmless:
                what = "the row is not closed with the number of elements so far" if close else "column %s and value %s are to be appended, and are not" % app if app and any(got.get(k) != v for k, v in want.items()) else "something else is written"
                return n, "with %s: %s" % (where, what), False
        if p.kind == "back":
            for k, f in mp.items():
                if k in new and new[k] != f(t):
                    if t.r == s.R:
                        continue
                    return n, "with %s, a cursor or counter is not where it belongs after the step" % where, False
        else:
            try:
                r = ending(s, p, val, col, rst, w)
            except NoEval as e:
                return n, str(e), True
            if r is not None:
                return n, r[0], r[1]
        n += 1
    return None


def holds(s, c, want):
    v = s.ev(c)
    return bool(v) == want if isinstance(want, bool) else v == want


def roles(ways, h, mp):
    """the arrays of the result, from what the ways out hand over: (values, columns, row starts)"""
    for cs, p, ev in ways:
        if p.kind == "ret":
            cp = [e for e in p.events if e[0] == "copy"]
            sp = [e for e in p.events if e[0] == "sparse"]
            if len(sp) == 1 and len(sp[0]) == 6:
                obj = lambda x: ("data", x[1], x[2]) if isinstance(x, tuple) and x[0] == "ptr" else None
                rst, col, val = map(obj, sp[0][3:])
                for e in cp:
                    if e[3][1] == col:
                        col = e[1][1]
                    elif e[3][1] == val:
                        val = e[1][1]
                if None in (rst, col, val):
                    return None
                return val, col, rst
    return None


def made(p):
    """the sizes the local arrays were made with: term by the key of their data"""
    out = {}
    for e in p.events:
        if e[0] == "known":
            for k, v in e[1]:
                if len(v) == 3 and v[1].split("::")[-1] in ("Tensor", "Vector") and not isinstance(v[2], str):
                    out[("data",) + k] = v[2]
    return out


def length(s, sizes, key):
    if key not in sizes:
        raise NoEval("length of an array of the result")
    n = s.ev(sizes[key])
    if isinstance(n, bool) or not isnum(n):
        raise NoEval("length of an array of the result")
    return n


def ending(s, p, val, col, rst, w):
    """the way out: exactly the elements appended are copied and handed over"""
    sizes = made(p)
    for e in [e for e in p.events if e[0] == "copy"]:
        a, b, d = (s.op_ptr(x[1], x[2]) for x in e[1:4])
        if not all(isinstance(x, Addr) for x in (a, b, d)) or a.key not in (val, col):
            raise NoEval("copy")
        n = b - a
        sz = w if a.key == val else 8
        if a.off != 0 or d.off != 0 or n != sz * s.q:
            return "not exactly the elements appended are copied into the result", False
    sp = [e for e in p.events if e[0] == "sparse"][0]
    if sp[2] not in (("ptr", ("arg", 1), 0), ("ptr", ("arg", 2), 0)):
        return "extents of the result", True
    for x, n, nm in ((sp[3], s.R + 1, "row starts"), (sp[4], s.q, "columns"), (sp[5], s.q, "values")):
        if length(s, sizes, ("data", x[1], x[2])) != n:
            return "the array of the %s of the result has not the length it should have" % nm, False
    return None


def begin(ctx, fn, ways, h, st, w, op, phis, ent):
    """before the loop: the first row start is zero, the arrays are long enough"""
    outs = [p for cs, p, ev in ways if p.kind == "ret"]
    arr = roles(ways, h, None)
    if arr is None or not outs:
        raise NoEval("arrays of the result")
    val, col, rst = arr
    first = [e for e in outs[0].events if e[0] == "store" and e[1] == rst and e[2] == 0]
    if not first:
        if any(e[0] == "store" and e[1] != rst and e[1][0] == "at" and not mentions(e, h) for e in outs[0].events):
            raise NoEval("first row start")
        if rst not in made(outs[0]):
            raise NoEval("first row start")
        return ctx.bad(fn, "start", "the start of the first row is never written", key=("first",))
    sizes = made(outs[0])
    for s in st:
        s.memo = {}
        if s.ev(first[-1][3]) != 0:
            return ctx.bad(fn, "start", "the first row does not start at zero", key=("first",))
        # elements that are there in one or the other, and those of the result
        at = some = 0
        for r in range(s.R):
            d = [dict(m[r]) for m in s.mats]
            for c in set(d[0]) | set(d[1]):
                at += 1
                some += OPS[op](d[0].get(c, 0), d[1].get(c, 0)) != 0
        for key, nm in ((val, "values"), (col, "columns")):
            n = length(s, sizes, key)
            if n < some:
                return ctx.bad(fn, "start", "room for %d %s is made when the result has %d" % (n, nm, some), key=("room", nm))
            if n < at:
                raise NoEval("room for the " + nm)
        n = length(s, sizes, rst)
        if n < s.R + 1:
            return ctx.bad(fn, "start", "room for %d row starts is made in a matrix of %d rows" % (n, s.R), key=("room", "rows"))
    ctx.ok(fn, "start")


def extents(ctx, fn, ps, h, w):
    for (a, b) in (((2, 3), (2, 4)), ((2, 3), (3, 3)), ((0, 3), (0, 2)), ((2, 2), (2, 2)), ((0, 3), (0, 3)), ((3, 0), (3, 0))):
        s = State([[], []], 0, 0, w)
        for k, d in ((1, a), (2, b)):
            s.leaf[("operator[]", ("T0", ("arg", k), 0), 0)], s.leaf[("operator[]", ("T0", ("arg", k), 0), 1)] = d
        hit = []
        for p in ps:
            cs = p.conds[:len(p.loops[h][0][2])] if h in p.loops else p.conds
            if all(holds(s, c, x) for c, x in cs):
                hit.append(p)
        if a != b:
            if any(p.kind != "abort" for p in hit):
                return ctx.bad(fn, "extents", "matrices of %dx%d and %dx%d are not refused" % (a + b), key=("refuse",))
        elif any(p.kind == "abort" and h not in p.loops for p in hit):
            return ctx.bad(fn, "extents", "matrices of %dx%d are refused" % a, key=("accept",))
        elif a[0] == 0 and any(h in p.loops for p in hit):
            return ctx.bad(fn, "extents", "the rows of matrices of %dx%d are read" % a, key=("empty",))
        elif 0 in a:
            for p in hit:
                sp = [e for e in p.events if e[0] == "sparse"]
                if len(sp) == 1 and len(sp[0]) == 5:
                    if tuple(s.ev(x) for x in sp[0][2:4]) != a:
                        return ctx.bad(fn, "extents", "matrices of %dx%d give one of other extents" % a, key=("empty extents",))
    ctx.ok(fn, "extents")
