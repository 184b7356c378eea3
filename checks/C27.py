"""Text output: what the stream operators write for vectors, tensors, sparse matrices and matrix forms."""
import os, re
from framework import *
from matx import Unknown as MUnknown, split_params, base_name, add, mul, isnum
from mateval import *
from merge import Cursors, as_ptr
from objs import LOG

PROBE = os.path.join(VERIF, "probe_io", "io.cc")
FORMS = ["src/views/matrix_form_%s.cc" % x for x in ("d", "z", "sp_d", "sp_z")]
RES = (("arg", 0), 0)
WIDTH = {"double": 8, "long": 8, "std::complex<double>": 16}
ELT = r"(long|double|std::complex<double>)"


def run(ctx):
    ctx.rule("vector", "a vector of n elements is written as [e0, e1, ...]: all of them, in order, separated by a comma and a blank")
    ctx.rule("tensor", "a tensor is written as its dimensions in parentheses, a slash and its elements in storage order")
    ctx.rule("sparse", "a sparse matrix is written as the tensor full() makes of it")
    ctx.rule("matrix form", "row by row in brackets, rows on lines of their own; one line for rank 1; higher ranks are refused")
    n = 0
    for fn in ctx.get(r"^std::ostream& tensor::operator<<", "vec", [PROBE]):
        t = fn.dem[fn.dem.index("(std::ostream&, ") + 16:]
        kind = re.match(r"tensor::(Vector|Tensor|Sparse|StaticVector|MatrixForm)<", t)
        if not kind:
            continue
        n += 1
        written(ctx, fn, kind.group(1), 0, 1)
    if n < 12:
        raise AnalysisError("%d writers found" % n)
    n = 0
    for fn in ctx.get(r"::MatrixForm<.*>::display\(", "vec", FORMS):
        n += 1
        written(ctx, fn, "display", 1, 0)
    if n < 2:
        raise AnalysisError("%d matrix forms found" % n)
    for fn in ctx.get(r"tensor::matrix_form\(", "vec", FORMS):
        form(ctx, fn)


class Writer(Cursors):
    """what goes to a stream is kept in order"""

    def __init__(self, fn, unit, stream):
        super().__init__(fn, unit)
        self.out = ("arg", stream)
        self.strings = {g[0]: g[4][1] for g in unit.j.get("globals", []) if len(g) > 4 and isinstance(g[4], list) and g[4][:1] == ["str"]}

    def begin(self, p):
        p.mem[LOG] = ("nolog",)

    def log(self, p, *item):
        p.mem[LOG] = ("log", p.mem[LOG]) + item

    def object(self, p, x):
        x = as_ptr(x)
        if (x[1], x[2]) not in p.mem and (x[1], 0) in p.mem and isnum(x[2]) and x[2] > 0:
            return ("dims", p.mem[(x[1], 0)])
        return p.mem.get((x[1], x[2]), ("T0", x[1], x[2]))

    def words(self, v):
        """a text, or one of several"""
        try:
            return ("lit", self.text(v))
        except MUnknown:
            return ("chars", v)

    def text(self, v):
        if isinstance(v, tuple) and v[0] == "ptr" and v[1][0] == "g" and isnum(v[2]):
            if v[1][1] in self.strings:
                return self.strings[v[1][1]][int(v[2]):]
        raise MUnknown("text " + str(v)[:60])

    def named(self, p, i, d, a):
        short = base_name(d).split("::")[-1]
        o = [self.val(p, x) for x in i["ops"] if not (isinstance(x, list) and x[0] == "bb")]
        if re.search(r"std::(basic_)?ostream|std::basic_ios|std::ios_base", d) and "tensor::" not in d:
            return self.to_stream(p, i, d, short, o)
        m = re.match(r"std::ostream& tensor::operator<<\s*<?.*\(std::ostream&, (.*)\)$", d)
        if m:
            if as_ptr(o[0])[1] == self.out:
                self.log(p, "object", self.object(p, o[1]), re.match(r"tensor::(\w+)", m.group(1)).group(1))
            p.env[i["id"]] = o[0]
            return None
        if re.search(r"MatrixForm<.*>::display\(", d):
            if as_ptr(o[1])[1] == self.out:
                self.log(p, "object", self.object(p, o[0]), "MatrixForm")
            p.env[i["id"]] = o[1]
            return None
        m = re.match(r"(?:.*[ &*])?tensor::(Vector|Tensor|Indices)(?:<%s>)?::(operator\(\)|operator\[\]|\w+)\((.*)\)( const)?$" % ELT, d)
        if m:
            w = WIDTH[m.group(2) or "long"]
            k = m.group(3)
            ob = self.object(p, o[0]) if o else None
            at = as_ptr(o[0]) if o else None
            if k in ("begin", "begin_const", "end", "end_const") and len(o) == 1:
                e = k.startswith("end")
                p.env[i["id"]] = ("ptr", ("data", at[1], at[2], ob), mul(w, ("count", ob)) if e else 0)
                return None
            if k in ("size", "rank", "rows", "columns") and len(o) == 1:
                p.env[i["id"]] = ({"size": "count"}.get(k, k), ob)
                return None
            if k == "dimension" and len(o) == 2:
                p.env[i["id"]] = ("dimension", ob, o[1])
                return None
            if k in ("dimensions",) and len(o) == 1:
                r = ("dims", ob)
                p.env[i["id"]] = ("ptr", ("obj", r), 0)
                p.mem[(("obj", r), 0)] = r
                return None
            if k in ("at", "operator()", "operator[]") and m.group(4) and len(o) in (2, 3):
                pos = o[1] if len(o) == 2 else add(o[1], ("mul", ("dimension", ob, 0), o[2]))
                if len(o) == 3:
                    pos = ("cell", ob, o[1], o[2])
                p.env[i["id"]] = ("ptr", ("data", at[1], at[2], ob), mul(w, pos))
                return None
        return super().named(p, i, d, a)

    def to_stream(self, p, i, d, short, o):
        s = as_ptr(o[0])
        mine = s[1] == self.out and s[2] == 0
        if i.get("ty") == "ptr":
            p.env[i["id"]] = o[0]
        if not mine:
            if s[1][0] == "g" or short.startswith("~"):
                return None
            raise MUnknown("stream " + str(s)[:40])
        if ("operator<<" in d and "char const*)" in d) and len(o) == 2:
            self.log(p, "text", self.words(o[1]))
        elif ("__ostream_insert" in d or short == "write") and len(o) == 3 and isnum(o[2]):
            self.log(p, "text", ("lit", self.text(o[1])[:int(o[2])]))
        elif re.search(r"operator<<.*, char\)$", d) or short == "put":
            if not isnum(o[1]):
                raise MUnknown("a computed character")
            self.log(p, "text", ("lit", chr(int(o[1]))))
        elif re.search(r"(_M_insert<(double|long|unsigned long)>|operator<<)\((double|long|int|unsigned long|unsigned)\)$", d) and len(o) == 2:
            self.log(p, "number", o[1])
        elif re.search(r"operator<<.*std::complex<double> const&\)$", d):
            v = as_ptr(o[1])
            self.log(p, "complex", self.load(p, v, "double"), self.load(p, ("ptr", v[1], add(v[2], 8)), "double"))
        elif short == "flush":
            return None
        else:
            raise MUnknown("call of " + d[:60])
        return None


class Shown(Eval):
    def op_nolog(self):
        return ""

    def op_lit(self, s):
        return s

    def op_chars(self, v):
        x = self.ev(v)
        at = x // 1000000 * 1000000
        if at not in self.obs or not isinstance(self.obs[at], str):
            raise NoEval("text")
        return self.obs[at][x - at:]

    def op_log(self, old, what, *a):
        old = self.ev(old)
        if what == "text":
            return old + self.ev(a[0])
        if what == "number":
            return old + number(self.ev(a[0]))
        if what == "complex":
            return old + number(complex(self.ev(a[0]), self.ev(a[1])))
        m = self.ev(a[0])
        return old + {"Vector": vector, "Indices": vector, "StaticVector": vector, "Tensor": tensor, "MatrixForm": rows}[a[1]](self.ev(a[0]))

    def op(self, t):
        return self.initial(t[1], t[2]) if t[0] == "T0" else super().op(t)

    def initial(self, base, off):
        if isnum(off) and off > 0 and ("T0", base, 0) in self.leaf:
            return dims_of(self.leaf[("T0", base, 0)])
        raise NoEval("object")

    def op_dims(self, m):
        return dims_of(self.ev(m))

    def op_count(self, m):
        return len(self.ev(m).a)

    def op_full(self, m):
        return self.ev(m)

    def op_rank(self, m):
        return len(self.ev(m).d)

    def op_rows(self, m):
        return self.ev(m).d[0]

    def op_columns(self, m):
        m = self.ev(m)
        if len(m.d) < 2:
            raise Broken("the columns of a tensor without")
        return m.d[1]

    def op_dimension(self, m, k):
        m, k = self.two(m, k)
        if not 0 <= k < len(m.d):
            raise Broken("a dimension the tensor does not have is asked for")
        return m.d[k]

    def op_cell(self, m, i, j):
        m, i, j = self.ev(m), self.ev(i), self.ev(j)
        if not (len(m.d) == 2 and 0 <= i < m.d[0] and 0 <= j < m.d[1]):
            raise Broken("an element outside the matrix is taken")
        return i + m.d[0] * j

    def op_ctor(self, nm, *a):
        v = [self.ev(x) for x in a]
        if len(v) == 1 and isinstance(v[0], Mat):
            return v[0]
        if len(v) == 1 and isinstance(v[0], int):
            return Mat((v[0],), [None] * v[0])
        raise NoEval("constructor")

    def place(self, base):
        if base not in self.ids:
            self.ids[base] = len(self.ids)
        return 1000000 * (1 + self.ids[base])

    def op_ptr(self, base, off):
        off = self.ev(off)
        if base[0] == "at":
            return self.ev(base[1]) + off
        if base[0] == "data":
            if base[1:3] not in self.obs:
                self.obs[self.place(base[1:3])] = base
            return self.place(base[1:3]) + off
        if base[0] == "g" and base[1] in self.strings:
            self.obs[self.place(base)] = self.strings[base[1]]
            return self.place(base) + off
        if base[0] in ("arg", "alloca", "in"):
            return self.place(base) + off
        raise NoEval("address")

    def op_load(self, base, off):
        x = self.op_ptr(base, off)
        at = (x + 500000) // 1000000 * 1000000
        if at not in self.obs or isinstance(self.obs[at], str):
            raise NoEval("memory")
        base, off = self.obs[at], x - at
        m = self.ev(base[3])
        if off in self.stored.get(base[1:3], {}):
            return self.ev(self.stored[base[1:3]][off])
        cx = any(isinstance(x, complex) for x in m.a)
        k, r = divmod(off, 16 if cx else 8)
        if not 0 <= k < len(m.a):
            raise Broken("element %d of %d is written" % (k, len(m.a)))
        x = m.a[k]
        if x is None:
            raise Broken("an element that was never set is written")
        if not cx:
            return x if not r else self.bad()
        return x.real if r == 0 else x.imag if r == 8 else self.bad()

    def bad(self):
        raise Broken("part of an element is written")


def dims_of(m):
    return Mat((len(m.d),), list(m.d))


def number(x):
    if isinstance(x, complex):
        return "%s %s" % (number(x.real), number(x.imag))
    if x is None:
        raise Broken("an element that was never set is written")
    if isinstance(x, (tuple, Mat)):
        raise NoEval("number")
    return "%g" % float(x)


def inner(a):
    return ", ".join(map(number, a))


def vector(m):
    return "[" + inner(m.a) + "]"


def tensor(m):
    return "(" + vector(dims_of(m)) + ")/[" + inner(m.a) + "]"


def rows(m):
    if len(m.d) == 1:
        return vector(m)
    return "[" + "\n ".join(inner([m.a[i + m.d[0] * j] for j in range(m.d[1])]) for i in range(m.d[0])) + "]"


WANT = {"Vector": vector, "StaticVector": vector, "Tensor": tensor, "Sparse": tensor, "MatrixForm": rows, "display": rows}
RULE = {"Vector": "vector", "StaticVector": "vector", "Tensor": "tensor", "Sparse": "sparse", "MatrixForm": "matrix form", "display": "matrix form"}


def written(ctx, fn, kind, stream, obj):
    rule = RULE[kind]
    try:
        W = Writer(fn.f, fn.unit, stream)
        ps = W.run()
    except (MUnknown, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
        return ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, e))
    ctx.functions.add(fn.dem)
    ctx.cases += len(ps)
    cx = "complex" in fn.dem
    if kind == "Vector":
        shapes = [(0,), (1,), (2,), (5,), (140,)]
    elif kind == "StaticVector":
        shapes = [(int(re.search(r", (\d+)ul>", fn.dem).group(1)),)]
    elif kind == "Tensor":
        shapes = [(0,), (1,), (4,), (120,), (2, 3), (3, 1), (2, 0), (2, 2, 2)]
    elif kind == "Sparse":
        shapes = [(1, 1), (2, 3), (3, 2), (0, 2), (12, 11)]
    else:
        shapes = [(0,), (1,), (4,), (1, 1), (2, 3), (3, 2), (1, 3), (3, 1), (0, 2), (0, 0), (40, 2), (2, 30), (2, 2, 2), (1, 1, 1)]
    why = None
    for d in shapes:
        try:
            e = sample(ctx, ps, W.strings, d, cx, "long" in fn.dem.split("(")[0], kind, obj)
        except Broken as x:
            e = "extents %s: %s" % (d, x)
        except (NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, OverflowError) as x:
            why = "%s: %s" % (type(x).__name__, str(x)[:120])
            continue
        if e:
            return ctx.bad(fn, rule, e, key=(rule,))
    if why:
        return ctx.unk(fn, rule, why)
    ctx.ok(fn, rule)


def sample(ctx, ps, strings, d, cx, integer, kind, obj):
    ctx.cases += 1
    n = 1
    for x in d:
        n *= x
    v = [complex(0.5 * k - 1, 4 - 2 * (k % 5)) if cx else 3 * k - 6 if integer else 1.5 * k - 3 for k in range(n)]
    m = Mat(d, v)
    key = ("arg", obj)
    leaf = {("T0", key, 0): m}
    w = 16 if cx else 8
    for k, x in enumerate(v):
        if kind == "StaticVector":
            for q, y in enumerate([x.real, x.imag] if cx else [x]):
                leaf[("init", key, w * k + 8 * q)] = y
    E = Shown(leaf)
    E.ids, E.stored, E.obs, E.strings = {}, {}, {}, strings
    for p in ps:
        for (b, o), x in p.mem.items():
            if isinstance(b, tuple) and b[0] == "data" and isnum(o):
                E.stored.setdefault(b[1:3], {})[o] = x
    F = Follow(ps, E)
    high = kind in ("MatrixForm", "display") and len(d) > 2
    for p in F.outcome():
        if F.refused(p):
            if high:
                continue
            return "extents %s are refused" % (d,)
        got = F.at(p).ev(p.mem[LOG])
        if high:
            if kind == "display":
                return "a tensor of rank %d is written as a matrix" % len(d)
            continue
        if p.ret is not None and isinstance(p.ret, tuple) and p.ret[0] == "ptr" and p.ret[1:] != (("arg", 1 - obj), 0):
            return "the stream is not what is returned"
        want = WANT[kind](m)
        if got != want:
            return "extents %s: %s is written as %s" % (d, show_text(want), show_text(got))


def show_text(s):
    return s.replace("\n", "\\n")


def form(ctx, fn):
    """matrix_form(t) keeps the tensor t"""
    try:
        ps = Writer(fn.f, fn.unit, 99).run()
        for p in ps:
            t = p.mem.get(RES)
            while isinstance(t, tuple) and (t[0] in ("full", "matrix_form") or t[0] == "ctor" and len(t) == 3):
                t = t[-1]
            if p.kind != "ret" or t != ("T0", ("arg", 1), 0):
                if p.kind == "ret" and isinstance(t, tuple) and t[0] == "T0":
                    return ctx.bad(fn, "matrix form", "another tensor is kept", key=("form",))
                raise MUnknown(str(t)[:80])
    except (MUnknown, RecursionError, KeyError, IndexError, TypeError, AttributeError) as e:
        return ctx.unk(fn, "matrix form", "%s: %s" % (type(e).__name__, e))
    ctx.functions.add(fn.dem)
    ctx.ok(fn, "matrix form")
