"""Functions of matrices: the recurrences they follow, summarised over whole matrices, against their definitions."""
import random
from fractions import Fraction
from framework import *
import matx
from matx import Machine, isnum
from mateval import *
import mateval

A0 = lambda k, off=0: ("T0", ("arg", k), off)
PTR = lambda k: ("ptr", ("arg", k), 0)
RES = (("arg", 0), 0)
NORMS = (Fraction(3, 10), Fraction(3, 4), 1, Fraction(3, 2), 2, Fraction(31, 10), 4, 5)


def run(ctx):
    ctx.rule("exponential", "for every order, the matrix is divided by a power of two that brings its norm to at most one, the Pade approximant of that order is formed, and squared back as often")
    ctx.rule("pseudoinverse", "the solution is V diag(1/s) U* B over the singular values above the tolerance, zero when there are none")
    ctx.rule("conjugate gradients", "the iteration starts from the residual of the starting point and follows the conjugate gradient recurrences; what is returned is the current iterate")
    ctx.rule("stop", "the iteration is left when the residual is below the tolerance or the iterations allowed are used up, and not before")
    ctx.rule("power", "the iteration multiplies the normalised vector by the map; what is returned is the expectation value and the normalised vector")
    ctx.rule("blocks", "the decompositions of the blocks are placed at their rows and columns and put into decreasing order; a matrix whose blocks do not add up is decomposed as a whole")
    ctx.rule("map", "a matrix acts as a map from the left, and from the right when it is transposed")
    ctx.rule("drivers", "the matrix, the sizes, the starting point and the limits reach the iteration; matrices that are not square are refused")
    jobs, n = [], 0
    orders = range(1, 10 if ctx.tier == "quick" else 16)
    for z, f in (("d", 0), ("z", 1)):
        for fn in ctx.get(r"^linalg::expm\(", "mat", ["src/linalg/expm_%s.cc" % z]):
            for q in orders:
                jobs.append(lambda fn=fn, q=q, f=f: expm(ctx, fn, q, f))
        for fn in ctx.get(r"^linalg::solve_with_svd\(", "mat", ["src/linalg/solve_with_svd_%s.cc" % z]):
            jobs.append(lambda fn=fn, f=f: pinv(ctx, fn, f))
        for fn in ctx.get(r"^linalg::do_cgs\(", "mat", ["src/linalg/cgs_map_%s.cc" % z]):
            jobs.append(lambda fn=fn, f=f: cgs(ctx, fn, f))
        for fn in ctx.get(r"^linalg::do_eig_power\(", "mat", ["src/linalg/eig_power_map_%s.cc" % z]):
            jobs.append(lambda fn=fn, f=f: power(ctx, fn, f))
        for fn in ctx.get(r"^linalg::block_svd\(", "mat", ["src/linalg/block_svd_%s.cc" % z]):
            jobs.append(lambda fn=fn, f=f: blocks(ctx, fn, f))
        for s in ("", "sp_"):
            for fn in ctx.get(r"^tensor::MatrixMap<.*>::(MatrixMap|operator\(\))\(", "mat", ["src/tools/map_%s%s.cc" % (s, z)]):
                jobs.append(lambda fn=fn: mapping(ctx, fn))
            for fn in ctx.get(r"^linalg::cgs\(", "mat", ["src/linalg/cgs_%s%s.cc" % (s, z)]):
                jobs.append(lambda fn=fn: driver(ctx, fn, "do_cgs"))
            for fn in ctx.get(r"^linalg::eig_power_(left|right)\(", "mat", ["src/linalg/eig_power_%s%s.cc" % (s, z)]):
                jobs.append(lambda fn=fn: driver(ctx, fn, "do_eig_power"))
    ctx.par(jobs)
    if len(jobs) < 30:
        raise AnalysisError("only %d functions found" % len(jobs))


_sums = {}


def paths(ctx, fn, preset=None):
    key = (fn.name, fn.src, tuple(sorted((preset or {}).items())))
    if key not in _sums:
        _sums[key] = Machine(fn.f, fn.unit, preset).run()
    ctx.cases += len(_sums[key])
    return _sums[key]


FITS = {"sizes": "operands whose sizes do not fit meet", "index": "an element out of bounds is used", "range beyond the end": "a range goes beyond the end",
        "sizes of a part": "a part is replaced by one of another size"}


def guarded(ctx, fn, rule, f):
    try:
        return f()
    except Broken as e:
        ctx.bad(fn, rule, FITS.get(str(e), str(e)), key=("fit", str(e)))
    except (Unknown, NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError, OverflowError, ValueError) as e:
        ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:120]))


# ---------------------------------------------------------------- samples
def rnd(seed, cx, *d):
    r = random.Random(seed)
    n = 1
    for x in d:
        n *= x
    return Mat(d, [complex(r.uniform(-1, 1), r.uniform(-1, 1)) if cx else r.uniform(-1, 1) for _ in range(n)])


def spd(seed, cx, n):
    m = rnd(seed, cx, n, n)
    g = matmul(conjugate(transpose(m)), m)
    return Mat(g.d, [x + (0.5 if i % (n + 1) == 0 else 0) for i, x in enumerate(g.a)])


def exact(seed, n, cx):
    r = random.Random(seed)
    return Mat((n, n), [Fraction(r.randint(-9, 9), r.randint(1, 7)) for _ in range(n * n)])


def inverse_times(d, n):
    """d^-1 n in exact numbers"""
    k = d.rows
    a = [r + s for r, s in zip(d.grid(), n.grid())]
    for i in range(k):
        p = next((j for j in range(i, k) if a[j][i] != 0), None)
        if p is None:
            raise NoEval("singular sample")
        a[i], a[p] = a[p], a[i]
        a[i] = [Fraction(x) / a[i][i] for x in a[i]]
        for j in range(k):
            if j != i and a[j][i]:
                a[j] = [x - a[j][i] * y for x, y in zip(a[j], a[i])]
    return from_grid([r[k:] for r in a])


def norminf(m):
    return max(sum(abs(x) for x in r) for r in m.grid())


# ---------------------------------------------------------------- the exponential
class ExpEval(Eval):
    def op_solve(self, d, n):
        return inverse_times(self.ev(d), self.ev(n))

    def op_matrix_norminf(self, a):
        return norminf(self.ev(a))


def pade(q, a):
    n = eye(a.rows)
    num = den = None
    x, c = n, Fraction(1)
    num, den = x, x
    for k in range(1, q + 1):
        c = c * (q - k + 1) / (k * (2 * q - k + 1))
        x = matmul(a, x)
        num = lin(num, x, lambda u, v: u + c * v)
        den = lin(den, x, lambda u, v: u + (-1) ** k * c * v)
    return inverse_times(den, num)


def expm(ctx, fn, q, cx):
    def go():
        ps = paths(ctx, fn, {2: q})
        done = False
        for s, nm in enumerate(NORMS):
            a = exact(11 + s, 2, cx)
            a = lin(a, Fraction(nm) / norminf(a), lambda x, y: x * y)
            E = ExpEval({A0(1): a})
            F = Follow(ps, E)
            outs = F.outcome()
            for p in outs:
                if F.refused(p):
                    return ctx.bad(fn, "exponential", "a square matrix is refused", key=("refused",))
                got = F.at(p).ev(p.mem.get(RES))
                want = []
                for j in range(0, 9):
                    b = lin(a, Fraction(1, 2 ** j), lambda x, y: x * y)
                    try:
                        x = pade(q, b)
                    except NoEval:
                        continue
                    for _ in range(j):
                        x = matmul(x, x)
                    if close(got, x, 0 if all(isinstance(y, (int, Fraction)) for y in got.a) else 1e-11):
                        want.append(j)
                        break
                if not want:
                    return ctx.bad(fn, "exponential", "for order %d and a matrix of norm %s the result is no Pade approximant of that order scaled and squared back" % (q, nm), key=("pade",))
                if nm > 2 ** want[0]:
                    return ctx.bad(fn, "exponential", "order %d: a matrix of norm %s is only divided by %d before the approximant is formed" % (q, nm, 2 ** want[0]), key=("scale",))
        refuse_rect(ctx, fn, ps, 1, "exponential")
        ctx.ok("%s order %d" % (fn.short, q), "exponential")
    guarded(ctx, fn, "exponential", go)


def refuse_rect(ctx, fn, ps, arg, rule):
    for p in ps:
        if p.kind != "ret":
            continue
        E = Eval({A0(arg): Mat((2, 3), [1] * 6)})
        if all(E.cond(c) is None or E.cond(c) == w for c, w in p.conds if isinstance(w, bool)) and not any(E.cond(c) is not None for c, w in p.conds):
            ctx.bad(fn, rule, "a matrix that is not square is not refused", key=("square",))
            return
        if not any(E.cond(c) is not None and E.cond(c) != w for c, w in p.conds):
            ctx.bad(fn, rule, "a matrix that is not square is not refused", key=("square",))
            return


# ---------------------------------------------------------------- the pseudoinverse
def ref_pinv(a, b, tol):
    u, s, vt = svd(a)
    k = [i for i, x in enumerate(s.a) if x > tol]
    n = a.cols
    if not k:
        return Mat((n,) + b.d[1:], [0.0] * (n * (b.d[1] if len(b.d) > 1 else 1)))
    y = fold(u, 0, b, 0, True)
    B = y if len(y.d) == 2 else Mat(y.d + (1,), y.a)
    B = Mat(B.d, [x / s.a[i // B.d[1]] if s.a[i // B.d[1]] > tol else 0 for i, x in enumerate(B.a)])
    r = matmul(conjugate(transpose(vt)), B)
    return r if len(b.d) == 2 else Mat((n,), r.a)


def pinv(ctx, fn, cx):
    def go():
        ps = paths(ctx, fn)
        n = 0
        for (r, c, k, rank, big) in [x + (1,) for x in ((3, 3, 2, 3), (3, 2, 1, 2), (2, 4, 2, 2), (3, 3, 2, 2), (4, 3, 2, 1), (2, 2, 1, 0), (1, 3, 2, 1))] + [(3, 3, 2, 3, 40), (2, 2, 1, 2, 0.01)]:
            a = matmul(rnd(r * 7 + c, cx, r, max(rank, 1)), rnd(c * 5 + 3, cx, max(rank, 1), c)) if rank else Mat((r, c), [0.0] * (r * c))
            a = Mat(a.d, [x * big for x in a.a])
            for bd in ((r,), (r, k)):
                b = rnd(41, cx, *bd)
                sv = svd(a)[1].a
                for tol in (0, 1e-9, (sv[0] + sv[1]) / 2 if len(sv) > 1 and rank > 1 else 1e-8, sv[-1] * 0.9 if rank == min(r, c) else 1e-6, 100.0 * big):
                    if tol == 0 and rank < min(r, c) and rank:
                        continue            # decided by rounding
                    E = Eval({A0(1): a, A0(2): b, ("arg", 3): tol})
                    F = Follow(ps, E)
                    want = ref_pinv(a, b, tol or 2.3e-16)
                    for p in F.outcome():
                        if F.refused(p):
                            return ctx.bad(fn, "pseudoinverse", "a %dx%d system with %d singular values above the tolerance is refused" % (r, c, sum(x > tol for x in sv)), key=("refused",))
                        got = F.at(p).ev(p.mem.get(RES))
                        if not close(got, want, 1e-7):
                            return ctx.bad(fn, "pseudoinverse", "a %dx%d system, %d right-hand sides, rank %d, tolerance %g: the result is not V diag(1/s) U* B over the singular values above the tolerance (%s)" % (r, c, k, rank, tol, "shape %s instead of %s" % (got.d, want.d) if got.d != want.d else "values differ"), key=("value",))
                    n += 1
        ctx.ok(fn, "pseudoinverse", "%d samples" % n)
    guarded(ctx, fn, "pseudoinverse", go)


# ---------------------------------------------------------------- conjugate gradients
def ref_cg(a, b, x, tol, steps):
    r = lin(b, matmul(a, x), lambda u, v: u - v)
    p, rs = r, dot(r, r)
    out = [x]
    if math.sqrt(abs(rs)) > tol:
        for _ in range(steps):
            ap = matmul(a, p)
            al = rs / dot(p, ap)
            x = lin(x, p, lambda u, v: u + al * v)
            r = lin(r, ap, lambda u, v: u - al * v)
            rn = dot(r, r)
            out.append(x)
            if math.sqrt(abs(rn)) < tol:
                break
            be = rn / rs
            p = lin(r, p, lambda u, v: u + be * v)
            rs = rn
    return out


def cgs(ctx, fn, cx):
    def go():
        ps = paths(ctx, fn)
        n = 0
        seen = set()
        for size, start, mi, tol, big in [x + (1,) for x in ((2, 0, 0, 0), (3, 1, 0, 0), (3, 1, 1, 1e-12), (4, 1, 2, 1e-12), (4, 0, 0, 1e-9), (4, 1, 9, 0.05), (5, 1, 3, 1e-12), (5, 0, 20, 1e-3), (3, 1, 4, 50.0), (3, 1, 0, -1.0))] + [(3, 1, 1, 1e-12, 1e-4), (3, 1, 2, 1e-9, 1e-11), (4, 1, 2, 1e-12, 1e5), (3, 1, 9, 0.4, 0.01)]:
            a = spd(size * 3 + start, cx, size)
            a = Mat(a.d, [x * big for x in a.a])
            b, x0 = rnd(5 + size, cx, size), rnd(9 + size, cx, size)
            leaf = {A0(2): b, A0(3): x0, PTR(3): start, ("arg", 4): mi, ("arg", 5): tol}
            E = Eval(leaf, apply=lambda v: matmul(a, v))
            F = Follow(ps, E)
            for p in F.outcome():
                if F.refused(p):
                    return ctx.bad(fn, "conjugate gradients", "a positive system of %d unknowns is refused" % size, key=("refused",))
                if any(p.kind == "ret" for p in ps) and p.mem.get(RES) is None:
                    raise NoEval("no result")
                got = F.at(p).ev(p.mem[RES])
                lim = mi or size
                small = tol if tol > 0 else 1e-8
                res = norm2(lin(b, matmul(a, got), lambda u, v: u - v))
                if start:
                    its = ref_cg(a, b, x0, small, lim + 1)
                    k = next((k for k, x in enumerate(its) if close(got, x, 1e-6)), None)
                    if k is None:
                        return ctx.bad(fn, "conjugate gradients", "%d unknowns, tolerance %g, %d iterations: the result is no iterate of the conjugate gradient method from the starting point" % (size, tol, lim), key=("iterate",))
                    if res > small * (1 + 1e-6) + 1e-12 and k < lim:
                        return ctx.bad(fn, "stop", "%d unknowns: the iteration ends after %d of %d steps with a residual of %.2g, above the tolerance %g" % (size, k, lim, res, small), key=("early",))
                    if k and norm2(lin(b, matmul(a, its[k - 1]), lambda u, v: u - v)) < (small if tol > 0 else 1e-12) * (1 - 1e-6):
                        return ctx.bad(fn, "stop", "%d unknowns: the iteration goes on although the residual is below the tolerance" % size, key=("late",))
                elif res > small * (1 + 1e-6) + 1e-12:
                    return ctx.bad(fn, "stop", "%d unknowns, no starting point: a residual of %.2g is left where the tolerance is %g and the method is exact" % (size, res, small), key=("own start",))
                seen.add(id(p))
            n += 1
        ctx.ok(fn, "conjugate gradients", "%d samples" % n)
        ctx.ok(fn, "stop")
        if any(k[0] == "virtual" for p in ps for k in p.events):
            for p in ps:
                if p.kind == "ret" and [e for e in p.events if e[0] == "virtual" and e[1] != 8]:
                    raise NoEval("virtual calls")
    guarded(ctx, fn, "conjugate gradients", go)


# ---------------------------------------------------------------- the power method
def unit(v):
    q = norm2(v)
    return Mat(v.d, [x / q for x in v.a])


def power(ctx, fn, cx):
    def go():
        ps = paths(ctx, fn)
        vec = (("arg", 1 + 1), 0)
        k0 = 0
        args = fn.f["args"]
        # map, size, vector, iterations, tolerance
        n = 0
        for size, given, it, tol, big in [x + (1,) for x in ((2, 1, 1, 1e-13), (3, 1, 2, 1e-13), (3, 1, 4, 1e-13), (3, 0, 3, 1e-13), (3, 1, 40, 1e-3), (4, 1, 60, 1e-2), (3, 1, 200, 1e-9), (3, 1, 0, 0), (30, 1, 0, 1e-14))] + [(3, 1, 60, 1e-2, 300.0), (3, 1, 60, 1e-2, 0.003)]:
            m = rnd(size + 3, cx, size, size)
            m = Mat(m.d, [(x + (3.0 if i == 0 else 0)) * big for i, x in enumerate(m.a)])
            v0 = rnd(size * 2 + 1, cx, size if given else size + 1)
            E = Eval({A0(2): v0, PTR(2): 1, ("arg", 1): size, ("arg", 3): it, ("arg", 4): tol}, apply=lambda v: matmul(m, v))
            F = Follow(ps, E)
            for p in F.outcome():
                if F.refused(p):
                    return ctx.bad(fn, "power", "a vector and a map of %d unknowns are refused" % size, key=("refused",))
                Z = F.at(p)
                ret = Z.ev(p.ret) if not (isinstance(p.ret, tuple) and p.ret[0] == "agg") else Z.ev(matx.cplx(p.ret[1], p.ret[2]))
                v = Z.ev(p.mem.get(vec))
                if abs(norm2(v) - 1) > 1e-9:
                    return ctx.bad(fn, "power", "the vector left behind has norm %.3g" % norm2(v), key=("norm",))
                if len(v.a) != size:
                    return ctx.bad(fn, "power", "a vector of the wrong size is not replaced", key=("size",))
                lim = it or max(20, size)
                t = tol if tol > 0 else 1e-11
                if given:
                    w, old, ends, hits = unit(v0), None, None, []
                    for k in range(lim + 2):
                        aw = matmul(m, w)
                        e = dot(w, aw)
                        err = max(abs(x - e * y) for x, y in zip(aw.a, w.a))
                        nw = unit(aw)
                        must = err < t * abs(e) * (1 - 1e-6) and err > 1e-10 or (k and abs(e - old) < t * abs(e) * (1 - 1e-6) and abs(e - old) > 1e-10)
                        may = must or err < t * abs(e) * (1 + 1e-6) or (k and abs(e - old) < t * abs(e) * (1 + 1e-6)) or err < 1e-9 or (k and abs(e - old) < 1e-10)
                        if close(ret, e, 1e-9) and close(v, nw, 1e-7):
                            hits.append((k, bool(may) or k + 1 >= lim))
                        if must and ends is None:
                            ends = k
                        w, old = nw, e
                    if not hits:
                        return ctx.bad(fn, "power", "%d unknowns, %d iterations: what is returned is not the expectation value of the map in the normalised vector and the next vector" % (size, it), key=("iterate",))
                    if ends is not None and hits[0][0] > ends:
                        return ctx.bad(fn, "stop", "the power method goes on although it is within the tolerance %g" % t, key=("late",))
                    if not any(g for k, g in hits):
                        return ctx.bad(fn, "stop", "the power method ends after %d of %d iterations, out of tolerance" % (hits[-1][0] + 1, lim), key=("early",))
                n += 1
        ctx.ok(fn, "power", "%d samples" % n)
        ctx.ok(fn, "stop")
    guarded(ctx, fn, "power", go)


# ---------------------------------------------------------------- block decompositions
class BlockEval(Eval):
    """the sample knows its blocks"""

    def __init__(self, leaf, rows, cols, found):
        super().__init__(leaf)
        self.rows, self.cols, self.found = rows, cols, found

    def op_find_blocks(self, *a):
        return self.found

    def op_out(self, k, call):
        if call[0] == "find_blocks":
            return [len(self.rows), ("rows",), ("cols",)][k]
        return super().op_out(k, call)

    def op_T0(self, base, off):
        if base[0] == "deref":
            which, o = self.ev(base[1]), self.ev(off)
            if which in (("rows",), ("cols",)) and o % self.size == 0:
                l = self.rows if which == ("rows",) else self.cols
                if 0 <= o // self.size < len(l):
                    x = l[o // self.size]
                    return Mat((len(x),), x)
        raise NoEval("object")

    size = 8


mateval.NAMES.pop("T0", None)


def blocks(ctx, fn, cx):
    def go():
        ps = paths(ctx, fn)
        n = 0
        shapes = [((4, 4), [(0, 2), (1, 3)], [(1, 2), (0, 3)]), ((4, 5), [(3,), (0, 1, 2)], [(0,), (1, 2, 4)]), ((5, 4), [(0, 1), (2, 3, 4)], [(0, 3), (1, 2)]),
                  ((3, 3), [(0,), (1,), (2,)], [(1,), (2,), (0,)]), ((3, 3), [(0,), (1, 2)], [(0, 1), (2,)]), ((4, 4), [(1,), (0,)], [(0,), (2,)]),
                  ((6, 6), [(2,)], [(3,)]), ((6, 2), [(1, 4)], [(0, 1)]), ((2, 6), [(0, 1)], [(3, 5)]), ((3, 3), [], []), ((3, 3), None, None), ((2, 4), None, None)]
        for (r, c), rb, cb in shapes:
            a = Mat((r, c), [0.0] * (r * c)) if rb is not None else rnd(3, cx, r, c)
            for k, (x, y) in enumerate(zip(rb or [], cb or [])):
                m = rnd(17 + k, cx, len(x), len(y))
                for i, p in enumerate(x):
                    for j, q in enumerate(y):
                        a.a[p * c + q] = m[i, j] * (k + 1)
            if rb is not None and len(rb) == 1 and False:
                continue
            for eco in (0, 1):
                for pu, pv in ((1, 1), (0, 0), (1, 0), (0, 1)):
                    leaf = {A0(1): a, PTR(2): pu, PTR(3): pv, ("arg", 4): eco}
                    E = BlockEval(leaf, rb or [], cb or [], rb is not None)
                    F = Follow(ps, E)
                    for p in F.outcome():
                        if F.refused(p):
                            return ctx.bad(fn, "blocks", "a %dx%d matrix is refused" % (r, c), key=("refused",))
                        Z = F.at(p)
                        what = "a %dx%d matrix with %s blocks%s" % (r, c, "no" if rb is None else len(rb), ", economic," if eco else "")
                        s = Z.ev(p.mem.get(RES))
                        mr = min(r, c)
                        ref = svd(a)[1]
                        if not close(s, ref, 1e-7):
                            return ctx.bad(fn, "blocks", what + ": the values returned are not its singular values in decreasing order", key=("values",))
                        U = Z.ev(p.mem[(("arg", 2), 0)]) if pu else None
                        V = Z.ev(p.mem[(("arg", 3), 0)]) if pv else None
                        if U is not None and (U.d != (r, mr if eco else r) or not close(matmul(conjugate(transpose(U)), U), eye(U.cols), 1e-7)):
                            return ctx.bad(fn, "blocks", what + ": the left vectors are not orthonormal or not as many as wanted", key=("left",))
                        if V is not None and (V.d != (mr if eco else c, c) or not close(matmul(V, conjugate(transpose(V))), eye(V.rows), 1e-7)):
                            return ctx.bad(fn, "blocks", what + ": the right vectors are not orthonormal or not as many as wanted", key=("right",))
                        if U is not None and V is not None:
                            us = Mat((r, mr), [U[i, j] * s.a[j] for i in range(r) for j in range(mr)])
                            vt = Mat((mr, c), [V[i, j] for i in range(mr) for j in range(c)])
                            if not close(matmul(us, vt), a, 1e-7):
                                return ctx.bad(fn, "blocks", what + ": U diag(s) VT is not the matrix", key=("product",))
                    n += 1
        ctx.ok(fn, "blocks", "%d samples" % n)
    guarded(ctx, fn, "blocks", go)


# ---------------------------------------------------------------- maps and drivers
def mapping(ctx, fn):
    def go():
        ps = paths(ctx, fn)
        if "::operator()" in fn.dem:
            cells = set()
            for p in ps:
                for x, w in p.conds:
                    leafs(x, cells)
            cells = {x for x in cells if x[0] == "init" and x[1] == ("arg", 1)}
            for tr in (False, True):
                for r, k in ((3, 3), (2, 3), (4, 2), (1, 1)):
                    m, v = rnd(3 * r, 1, r, k), rnd(4, 1, r if tr else k)
                    E = Eval(dict({x: int(tr) for x in cells}, **{}))
                    E.bind({A0(1, 8): m, A0(2): v})
                    F = Follow(ps, E)
                    for p in F.outcome():
                        if F.refused(p):
                            return ctx.bad(fn, "map", "a vector of the right size is refused", key=("refused", tr))
                        if not close(F.at(p).ev(p.mem.get(RES)), matmul(v, m) if tr else matmul(m, v)):
                            return ctx.bad(fn, "map", "the %smap does not multiply a %dx%d matrix and a vector from the %s" % ("transposed " if tr else "", r, k, "left" if tr else "right"), key=("side", tr))
            ctx.ok(fn, "map")
        else:
            for p in ps:
                if p.kind == "ret":
                    if p.mem.get((("arg", 0), 8)) != A0(1):
                        raise NoEval("matrix member")
                    fl = [v for k, v in p.mem.items() if k[0] == ("arg", 0) and k[1] not in (0, 8)]
                    if fl == [("arg", 2)]:
                        continue
                    if len(fl) == 1:
                        for b in (0, 1):
                            if bool(Eval({("arg", 2): b}).ev(fl[0])) != bool(b):
                                return ctx.bad(fn, "map", "the flag for transposition is not kept", key=("flag",))
                        continue
                    raise NoEval("flag")
            ctx.ok(fn, "map")
    guarded(ctx, fn, "map", go)


def strip(t):
    while isinstance(t, tuple) and len(t) == 2 and t[0] == "Tensor":
        t = t[1]
    return t


def leafs(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ("init", "T0", "arg", "ptr"):
            out.add(t)
        else:
            for x in t:
                leafs(x, out)


def driver(ctx, fn, target):
    def go():
        ps = paths(ctx, fn)
        first = 1 if target == "do_cgs" else 0
        name = "eig_power_left" if "eig_power_left" in fn.dem else "eig_power_right" if "eig_power_right" in fn.dem else "cgs"
        left = name == "eig_power_left"
        rets = [p for p in ps if p.kind == "ret"]
        if not rets:
            return ctx.bad(fn, "drivers", "no way through the function returns", key=("never",))
        for p in rets:
            t = p.mem.get(RES) if target == "do_cgs" else p.ret
            if isinstance(t, tuple) and t[0] == "agg":
                t = matx.cplx(t[1], t[2])
            t = strip(t)
            if not (isinstance(t, tuple) and t[0] == target):
                raise NoEval("result is " + matx.show(t, 2))
            m = p.mem.get((t[1][1], t[1][2])) if isinstance(t[1], tuple) and t[1][0] == "ptr" else None
            if not (isinstance(m, tuple) and m[0] == "ctor" and m[1].endswith("MatrixMap")):
                raise NoEval("map")
            mat, fl = strip(m[2]), m[3] if len(m) > 3 else 0
            E = Eval()
            tr = E.ev(fl)
            if mat != A0(first):
                if isinstance(mat, tuple) and mat[0] in ("transpose", "adjoint") and strip(mat[1]) == A0(first):
                    if mat[0] == "adjoint":
                        return ctx.bad(fn, "drivers", "the map is the adjoint of the matrix", key=("adjoint",))
                    tr = not tr
                else:
                    raise NoEval("matrix")
            if bool(tr) != left:
                return ctx.bad(fn, "drivers", "the %s uses the matrix %s" % ("left eigenvector" if left else "right eigenvector" if target != "do_cgs" else "solver", "transposed" if tr else "untransposed"), key=("side",))
            if target == "do_cgs":
                rest, want = t[2:], [A0(2), PTR(3), ("arg", 4), ("arg", 5)]
                names = ["right-hand side", "starting point", "number of iterations", "tolerance"]
            else:
                Z = Eval({A0(first): Mat((3, 3), [0] * 9)})
                if isnum(t[2]) or Z.ev(t[2]) != 3:
                    return ctx.bad(fn, "drivers", "the size handed over is not that of the matrix", key=("size",))
                rest, want = t[3:], [PTR(1), ("arg", 2), ("arg", 3)]
                names = ["vector", "number of iterations", "tolerance"]
            for x, y, nm in zip(rest, want, names):
                x = strip(x)
                if x != y:
                    if x in want or isnum(x) or x == ("nullptr",):
                        return ctx.bad(fn, "drivers", "the %s does not reach the iteration" % nm, key=("argument", nm))
                    raise NoEval(nm)
        if target != "do_cgs":
            refuse_rect(ctx, fn, ps, first, "drivers")
        ctx.ok(fn, "drivers")
    guarded(ctx, fn, "drivers", go)
