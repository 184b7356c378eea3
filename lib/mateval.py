"""Values of matrix terms over sample algebras, and the recurrences of a summary (matx) followed over them."""
import math, random
from fractions import Fraction
from matx import isnum, show


class NoEval(Exception):
    pass


class Broken(NoEval):
    """an operation whose operands do not fit: the library would abort or go out of bounds"""


class Poison:
    def __init__(self, msg):
        self.msg = msg


class Mat:
    """dense array of rank 1 or 2: dims, data row by row"""
    __slots__ = ("d", "a")

    def __init__(self, d, a):
        self.d, self.a = tuple(d), list(a)

    def __getitem__(self, ij):
        return self.a[ij] if len(self.d) == 1 else self.a[ij[0] * self.d[1] + ij[1]]

    def copy(self):
        return Mat(self.d, self.a)

    @property
    def rows(self):
        return self.d[0]

    @property
    def cols(self):
        return self.d[1] if len(self.d) > 1 else 1

    def grid(self):
        return [[self.a[i * self.cols + j] for j in range(self.cols)] for i in range(self.rows)]


def conj(x):
    return x.conjugate() if isinstance(x, complex) else x


def from_grid(g):
    return Mat((len(g), len(g[0]) if g else 0), [x for r in g for x in r])


def matmul(a, b):
    if len(a.d) == 1 and len(b.d) == 2:
        r = matmul(Mat((1, a.d[0]), a.a), b)
        return Mat((b.d[1],), r.a)
    if len(b.d) == 1:
        r = matmul(a, Mat((b.d[0], 1), b.a))
        return Mat((a.d[0],), r.a)
    if a.d[1] != b.d[0]:
        raise Broken("sizes")
    return Mat((a.d[0], b.d[1]), [sum(a.a[i * a.d[1] + k] * b.a[k * b.d[1] + j] for k in range(a.d[1])) for i in range(a.d[0]) for j in range(b.d[1])])


def transpose(a):
    return Mat((a.d[1], a.d[0]), [a.a[i * a.d[1] + j] for j in range(a.d[1]) for i in range(a.d[0])])


def conjugate(a):
    return Mat(a.d, [conj(x) for x in a.a])


def eye(n, m=None):
    m = n if m is None else m
    return Mat((n, m), [1 if i == j else 0 for i in range(n) for j in range(m)])


def dot(a, b):
    if len(a.a) != len(b.a):
        raise Broken("sizes")
    return sum(conj(x) * y for x, y in zip(a.a, b.a))


def norm2(a):
    return math.sqrt(sum(abs(x) ** 2 for x in a.a))


def fold(a, i, b, j, cj=False):
    i, j = i % len(a.d), j % len(b.d)
    if cj:
        a = conjugate(a)
    va, vb = len(a.d) == 1, len(b.d) == 1
    A = Mat((1,) + a.d, a.a) if va else a if i == 1 else transpose(a)
    B = Mat(b.d + (1,), b.a) if vb else b if j == 0 else transpose(b)
    r = matmul(A, B)
    return Mat(([] if va else [r.d[0]]) + ([] if vb else [r.d[1]]) or [1], r.a)


def svd(m):
    """one-sided Jacobi: U (rows x r), s, VT (r x cols), r = min(rows, cols); complex allowed"""
    if m.rows < m.cols:
        u, s, vt = svd(conjugate(transpose(m)))
        return conjugate(transpose(vt)), s, conjugate(transpose(u))
    n, w = m.cols, [[m[i, j] for i in range(m.rows)] for j in range(m.cols)]     # columns
    v = [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]
    for _ in range(60):
        off = 0
        for p in range(n):
            for q in range(p + 1, n):
                a = sum(abs(x) ** 2 for x in w[p])
                b = sum(abs(x) ** 2 for x in w[q])
                c = sum(conj(x) * y for x, y in zip(w[p], w[q]))
                if abs(c) < 1e-15 * math.sqrt(a * b) or abs(c) == 0:
                    continue
                off = 1
                ph = c / abs(c)
                z = (b - a) / (2 * abs(c))
                t = (1 if z >= 0 else -1) / (abs(z) + math.sqrt(1 + z * z))
                cs = 1 / math.sqrt(1 + t * t)
                sn = cs * t
                for x in (w, v):
                    xp, xq = x[p], x[q]
                    x[p] = [cs * y - sn * conj(ph) * z_ for y, z_ in zip(xp, xq)]
                    x[q] = [sn * ph * y + cs * z_ for y, z_ in zip(xp, xq)]
        if not off:
            break
    s = [math.sqrt(sum(abs(x) ** 2 for x in c)) for c in w]
    o = sorted(range(n), key=lambda k: -s[k])
    u = []
    for k in o:
        c = [x / s[k] for x in w[k]] if s[k] > 1e-14 else None
        u.append(c)
    u = complete(u, m.rows)
    U = transpose(from_grid(u))
    VT = from_grid([[conj(x) for x in v[k]] for k in o])
    return U, Mat((n,), [s[k] for k in o]), VT


def complete(cols, n, upto=None):
    have = [c for c in cols if c is not None]
    out = []
    for c in cols + [None] * ((upto or len(cols)) - len(cols)):
        if c is None:
            for e in range(n):
                x = [1.0 if i == e else 0.0 for i in range(n)]
                for h in have:
                    d = sum(conj(y) * z for y, z in zip(h, x))
                    x = [z - d * y for y, z in zip(h, x)]
                q = math.sqrt(sum(abs(z) ** 2 for z in x))
                if q > 1e-3:
                    c = [z / q for z in x]
                    break
            have.append(c)
        out.append(c)
    return out


def full_svd(m):
    u, s, vt = svd(m)
    ucols = [list(r) for r in transpose(u).grid()]
    vrows = [[conj(x) for x in r] for r in vt.grid()]
    U = transpose(from_grid(complete(ucols, m.rows, m.rows)))
    V = from_grid([[conj(x) for x in r] for r in complete(vrows, m.cols, m.cols)])
    return U, s, V


def close(a, b, tol=1e-8):
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a.d == b.d and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a.a, b.a))
    if isinstance(a, Mat) or isinstance(b, Mat):
        return False
    return abs(a - b) <= tol * (1 + abs(b))


class Eval:
    """leaf: {term: value}; apply: value of a map on a vector"""

    def __init__(self, leaf=None, apply=None):
        self.leaf = dict(leaf or {})
        self.apply = apply
        self.memo = {}

    def bind(self, d):
        self.leaf.update(d)
        self.memo = {}

    def ev(self, t):
        if isnum(t):
            return t
        if not isinstance(t, tuple):
            raise NoEval(str(t))
        k = id(t)
        if k in self.memo and self.memo[k][0] is t:
            return self.memo[k][1]
        v = self.leaf[t] if t in self.leaf else self.op(t)
        if isinstance(v, Poison):
            raise Broken(v.msg)
        self.memo[k] = (t, v)
        return v

    def cond(self, c):
        """True, False or None"""
        try:
            v = self.ev(c)
        except NoEval:
            return None
        return bool(v)

    def op(self, t):
        o = t[0]
        f = getattr(self, "op_" + NAMES.get(o, str(o)), None)
        if f is None:
            raise NoEval(show(t, 3))
        return f(*t[1:])

    def two(self, a, b):
        return self.ev(a), self.ev(b)

    def op_add(self, a, b=None):
        a, b = self.two(a, b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if len(a.a) != len(b.a):
                raise Broken("sizes")
            return Mat(a.d, [x + y for x, y in zip(a.a, b.a)])
        if isinstance(a, Mat):
            return Mat(a.d, [x + b for x in a.a])
        if isinstance(b, Mat):
            return Mat(b.d, [a + x for x in b.a])
        return a + b

    def op_sub(self, a, b=None):
        if b is None:
            return self.op_mul(-1, a)
        a, b = self.two(a, b)
        return lin(a, b, lambda x, y: x - y)

    def op_mul(self, a, b):
        a, b = self.two(a, b)
        if isinstance(a, Mat) and isinstance(b, Mat) and len(a.a) != len(b.a):
            raise Broken("sizes")
        return lin(a, b, lambda x, y: x * y)

    def op_div(self, a, b):
        a, b = self.two(a, b)
        try:
            return lin(a, b, divide)
        except ZeroDivisionError:
            raise NoEval("division by zero")

    def op_idiv(self, a, b):
        a, b = self.two(a, b)
        if not b:
            raise NoEval("division by zero")
        return a // b

    def op_mod(self, a, b):
        a, b = self.two(a, b)
        return a % b

    def op_eq(self, a, b):
        a, b = self.two(a, b)
        return a == b

    def op_ne(self, a, b):
        a, b = self.two(a, b)
        return a != b

    def op_lt(self, a, b):
        a, b = self.two(a, b)
        return real(a) < real(b)

    def op_le(self, a, b):
        a, b = self.two(a, b)
        return real(a) <= real(b)

    def op_gt(self, a, b):
        a, b = self.two(a, b)
        return real(a) > real(b)

    def op_ge(self, a, b):
        a, b = self.two(a, b)
        return real(a) >= real(b)

    def op_not(self, a):
        return not self.ev(a)

    def op_notin(self, c, *cases):
        return self.ev(c) not in cases

    def op_or(self, a, b):
        return bool(self.ev(a)) or bool(self.ev(b))

    def op_and(self, a, b):
        return bool(self.ev(a)) and bool(self.ev(b))

    def op_select(self, c, a, b):
        return self.ev(a) if self.ev(c) else self.ev(b)

    def op_max(self, a, b):
        return max(*self.two(a, b))

    def op_min(self, a, b):
        return min(*self.two(a, b))

    def op_sqrt(self, a):
        a = self.ev(a)
        return math.sqrt(a) if not isinstance(a, complex) else a ** 0.5

    def op_abs(self, a):
        a = self.ev(a)
        return Mat(a.d, [abs(x) for x in a.a]) if isinstance(a, Mat) else abs(a)

    def op_norm(self, a):
        return abs(self.ev(a)) ** 2

    def op_conj(self, a):
        a = self.ev(a)
        return conjugate(a) if isinstance(a, Mat) else conj(a)

    def op_re(self, a):
        a = self.ev(a)
        return a.real if isinstance(a, complex) else a

    def op_im(self, a):
        a = self.ev(a)
        return a.imag if isinstance(a, complex) else 0

    def op_cplx(self, a, b):
        a, b = self.two(a, b)
        return a + 1j * b if b else a

    def op_floor(self, a):
        return math.floor(self.ev(a))

    def op_ceil(self, a):
        return math.ceil(self.ev(a))

    def op_int(self, a):
        return int(self.ev(a))

    def op_log2(self, a):
        return math.log2(self.ev(a))

    def op_log(self, a):
        return math.log(self.ev(a))

    def op_exp2(self, a):
        a = self.ev(a)
        return Fraction(2) ** a if isinstance(a, int) else 2.0 ** float(a)

    def op_pow(self, a, b):
        a, b = self.two(a, b)
        return Fraction(a) ** b if isinstance(a, int) and isinstance(b, int) else a ** b

    op_powi = op_pow

    def op_ldexp(self, a, b):
        a, b = self.two(a, b)
        return a * Fraction(2) ** b

    # tensors
    def op_apply(self, slot, obj, v):
        if slot != 16 or self.apply is None:
            raise NoEval("virtual call")
        return self.apply(self.ev(v))

    def op_scprod(self, a, b):
        a, b = self.two(a, b)
        return dot(b, a)

    def op_norm2(self, a):
        return norm2(self.ev(a))

    def op_norm0(self, a):
        return max([abs(x) for x in self.ev(a).a] or [0])

    def op_size(self, a):
        return len(self.ev(a).a)

    def op_rows(self, a):
        return self.ev(a).rows

    def op_columns(self, a):
        return self.ev(a).cols

    def op_dimension(self, a, k):
        return self.ev(a).d[self.ev(k)]

    def op_rank(self, a):
        return len(self.ev(a).d)

    def op_dimensions(self, a):
        a = self.ev(a)
        return Mat((len(a.d),), a.d)

    def op_transpose(self, a):
        return transpose(self.ev(a))

    def op_adjoint(self, a):
        return conjugate(transpose(self.ev(a)))

    def op_mmult(self, a, b):
        return matmul(*self.two(a, b))

    def op_fold(self, a, i, b, j):
        return fold(self.ev(a), self.ev(i), self.ev(b), self.ev(j))

    def op_foldc(self, a, i, b, j):
        return fold(self.ev(a), self.ev(i), self.ev(b), self.ev(j), True)

    def op_eye(self, n, m=None):
        return eye(self.ev(n), None if m is None else self.ev(m))

    def op_zeros(self, *a):
        a = [self.ev(x) for x in a]
        d = a[0].a if isinstance(a[0], Mat) else a
        n = 1
        for x in d:
            n *= x
        return Mat(d, [0.0] * n)

    def op_random(self, a):
        a = self.ev(a)
        d = a.a if isinstance(a, Mat) else [a]
        n = 1
        for x in d:
            n *= x
        r = random.Random(7)
        return Mat(d, [r.random() for _ in range(n)])

    def op_scale(self, x, axis, v):
        x, axis, v = self.ev(x), self.ev(axis), self.ev(v)
        axis %= len(x.d)
        if x.d[axis] != len(v.a):
            raise Broken("sizes")
        if len(x.d) == 1:
            return Mat(x.d, [p * q for p, q in zip(x.a, v.a)])
        return Mat(x.d, [x.a[i * x.d[1] + j] * v.a[j if axis else i] for i in range(x.d[0]) for j in range(x.d[1])])

    def op_copy(self, a, *more):
        if more:
            raise NoEval("constructor")
        a = self.ev(a)
        if isinstance(a, Mat):
            return a.copy()
        raise NoEval("constructor")

    def op_diag(self, a, *k):
        a = self.ev(a)
        if k and any(self.ev(x) for x in k):
            raise NoEval("diag")
        n = len(a.a)
        return Mat((n, n), [a.a[i] if i == j else 0 for i in range(n) for j in range(n)])

    def op_elem(self, a, *ix):
        a = self.ev(a)
        ix = [self.ev(x) for x in ix]
        if any(not isinstance(x, int) for x in ix):
            return self.part(a, ix)
        return self.pick(a, ix)

    def pick(self, a, ix):
        if len(ix) == 1:
            if not -len(a.a) <= ix[0] < len(a.a):
                raise Broken("index")
            return a.a[ix[0] % len(a.a)]
        if len(ix) != len(a.d) or any(not -d <= x < d for x, d in zip(ix, a.d)):
            raise Broken("index")
        return a[tuple(x % d for x, d in zip(ix, a.d))]

    def positions(self, a, ix):
        out = []
        if len(ix) != len(a.d):
            raise NoEval("ranges")
        for x, d in zip(ix, a.d):
            if isinstance(x, tuple) and x[0] == "rng":
                r = list(x[1]) if x[1] is not None else list(range(d))
            elif isinstance(x, int):
                r = [x]
            else:
                raise NoEval("range")
            if any(not -d <= y < d for y in r):
                raise Broken("range beyond the end")
            out.append([y % d for y in r])
        return out

    def part(self, a, ix):
        ps = self.positions(a, ix)
        if len(ps) == 1:
            return Mat((len(ps[0]),), [a.a[i] for i in ps[0]])
        return Mat([len(p) for p in ps], [a[i, j] for i in ps[0] for j in ps[1]])

    def op_put(self, a, ix, v):
        a, v = self.ev(a).copy(), self.ev(v)
        ix = [self.ev(x) for x in ix]
        if all(isinstance(x, int) for x in ix):
            if len(ix) == 1:
                if not -len(a.a) <= ix[0] < len(a.a):
                    raise Broken("index")
                a.a[ix[0]] = v
                return a
        ps = self.positions(a, ix)
        n = 1
        for p in ps:
            n *= len(p)
        vs = v.a if isinstance(v, Mat) else [v] * n
        if len(vs) != n:
            raise Broken("sizes of a part")
        it = iter(vs)
        if len(ps) == 1:
            for i in ps[0]:
                a.a[i] = next(it)
        else:
            for i in ps[0]:
                for j in ps[1]:
                    a.a[i * a.d[1] + j] = next(it)
        return a

    def op_range(self, *a):
        a = [self.ev(x) for x in a]
        if not a:
            return ("rng", None)
        if len(a) == 1 and isinstance(a[0], Mat):
            return ("rng", tuple(a[0].a))
        if len(a) == 1:
            return ("rng", (a[0],))
        return ("rng", tuple(range(a[0], a[1] + 1, a[2] if len(a) > 2 else 1)))

    def op_iota(self, *a):
        a = [self.ev(x) for x in a]
        if len(a) == 1:
            return Mat((a[0],), range(a[0]))
        r = list(range(a[0], a[1] + 1, a[2] if len(a) > 2 else 1))
        return Mat((len(r),), r)

    def op_fill_with_zeros(self, a):
        a = self.ev(a)
        return Mat(a.d, [0.0] * len(a.a))

    def op_ctor(self, nm, *a):
        a = [self.ev(x) for x in a]
        if a and all(isinstance(x, int) for x in a) and nm.endswith("Tensor"):
            n = 1
            for x in a:
                n *= x
            return Mat(a, [float("nan")] * n)
        raise NoEval("constructor")

    def op_sort_indices(self, a, rev=0):
        a = self.ev(a)
        o = sorted(range(len(a.a)), key=lambda k: a.a[k])
        if self.ev(rev):
            o.reverse()
        return Mat((len(o),), o)

    def op_svd(self, m, u, v, economic):
        return self.factors(m, economic)[1]

    def factors(self, m, economic):
        m = self.ev(m)
        return svd(m) if self.ev(economic) else full_svd(m)

    def op_out(self, k, call):
        if call[0] == "svd":
            f = self.factors(call[1], call[4])
            nul = [x == ("nullptr",) for x in call[2:4]]
            # outputs are counted among the pointers that are not null
            which = [0, 2]
            which = [w for w, n in zip(which, nul) if not n]
            return f[which[k]]
        raise NoEval("output of " + str(call[0]))


NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "operator+": "add", "operator-": "sub", "operator*": "mul", "operator/": "div",
         "operator==": "eq", "operator!=": "ne", "fabs": "abs", "std::abs": "abs", "real": "re", "imag": "im", "ccgs_scprod": "scprod",
         "scale_inplace": "scale", "Tensor": "copy", "operator[]": "elem", "at": "elem", "operator()": "elem", "operator tensor::Tensor": "copy",
         "mmult": "mmult", "h": "none", "T0": "none"}


def divide(x, y):
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return Fraction(x) / y
    return x / y


def real(x):
    return x.real if isinstance(x, complex) else x


def lin(a, b, f):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if len(a.a) != len(b.a):
            raise Broken("sizes")
        return Mat(a.d, [f(x, y) for x, y in zip(a.a, b.a)])
    if isinstance(a, Mat):
        return Mat(a.d, [f(x, b) for x in a.a])
    if isinstance(b, Mat):
        return Mat(b.d, [f(a, x) for x in b.a])
    return f(a, b)


class Follow:
    """the recurrences of a summary over a sample: which way out is taken and with which values"""

    def __init__(self, paths, E, limit=300):
        self.paths, self.E, self.limit = paths, E, limit
        self.count = {}
        self.unsure = []
        self.doubt = {}
        self.cache = {}

    def outcome(self):
        """the enabled way out: (path, None) or raises NoEval"""
        got = []
        for p in self.paths:
            if p.kind == "back":
                continue
            r = self.enabled(p)
            if r:
                got.append(p)
        if not got:
            raise NoEval("no way out is enabled")
        if len(got) > 1:
            # ways that differ by what cannot be evaluated must agree; the caller compares
            return got
        return got

    def refused(self, p):
        """p is no way to return, and every condition of it is known to hold"""
        if p.kind != "ret" and self.doubt[id(p)]:
            raise NoEval("refusal under " + self.doubt[id(p)][0])
        return p.kind != "ret"

    def enabled(self, p):
        saved, n = dict(self.E.leaf), len(self.unsure)
        ok = self.conds(p, 0, list(p.loops))
        self.doubt[id(p)] = self.unsure[n:]
        if not ok:
            self.E.leaf = saved
            self.E.memo = {}
            return False
        p_leaf = dict(self.E.leaf)
        self.E.leaf = saved
        self.E.memo = {}
        self.cache[id(p)] = p_leaf
        return True

    def at(self, p):
        """evaluator in the final state of the way out"""
        E = Eval.__new__(type(self.E))
        E.__dict__.update(self.E.__dict__)
        E.leaf, E.memo = dict(self.cache[id(p)]), {}
        return E

    def conds(self, p, start, loops):
        todo = list(loops)
        for k in range(start, len(p.conds) + 1):
            while todo and len(p.loops[todo[0]][0][2]) <= k:
                h = todo.pop(0)
                if not self.settle(p, h):
                    return False
            if k == len(p.conds):
                break
            c, want = p.conds[k]
            v = self.truth(c, want)
            if v is False:
                return False
        return True

    def truth(self, c, want):
        try:
            v = self.E.ev(c)
        except NoEval as e:
            self.unsure.append(str(e))
            return None
        if isinstance(want, bool):
            return bool(v) == want
        return None if want is None else v == want

    def settle(self, p, h):
        """runs the loop h, entered on the way p, until no way around is enabled"""
        ent = p.loops[h][0]
        key = ("loop", h, tuple(map(id, ent[2])), len(ent[2]))
        vals, new = {}, {}
        start = p.loops[h][1]
        for k, v in ent[0].items():
            new[("h", h, k)] = self.value(v)
        for k, v in start.items():
            if v == ("h", h, k):
                new[("h", h, k)] = self.value(ent[1].get(k))
        self.set(new)
        n = len(ent[2])
        backs = [q for q in self.paths if q.kind == "back" and q.where == h and q.conds[:n] == p.conds[:n]]
        self.count[h] = 0
        for it in range(self.limit):
            for q in backs:
                before = len(self.unsure)
                ls = list(q.loops)
                inner = ls[ls.index(h) + 1:]
                keep = dict(self.E.leaf)
                dec = self.decided(q, n)
                ok = dec and self.conds(q, n, inner)
                if ok:
                    new = {}
                    for k, v in q.ret.items():
                        new[("h", h, k)] = self.value(v)
                    for k, v in q.loops[h][1].items():
                        if v == ("h", h, k):
                            new[("h", h, k)] = self.value(q.mem.get(k))
                    self.E.leaf = keep
                    self.E.memo = {}
                    self.set(new)
                    self.count[h] += 1
                    break
                self.E.leaf = keep
                self.E.memo = {}
            else:
                return True
        raise NoEval("the loop does not end")

    def decided(self, q, n):
        """loops whose continuation cannot be evaluated (destruction of arrays) are left at once"""
        if n == len(q.conds):
            return True
        c, want = q.conds[n]
        return self.truth(c, want) is True

    def value(self, v):
        try:
            return self.E.ev(v) if v is not None else None
        except Broken as e:
            return Poison(str(e))
        except NoEval:
            return None

    def set(self, new):
        for k, v in new.items():
            if v is None:
                self.E.leaf.pop(k, None)
            else:
                self.E.leaf[k] = v
        self.E.memo = {}
