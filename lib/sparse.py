"""Compressed-row matrices: symbolic view, well-formedness assumptions on arguments, comparison of results."""
from framework import *
from models import vkey

PARTS = (("dimensions", 0), ("row starts", 8), ("columns", 16), ("values", 24))


class Sp:
    """a sparse argument in its initial state"""

    def __init__(self, addr, elty):
        self.addr, self.elty = addr, elty
        self.dims = Ten(addr, "long")
        self.rs, self.col, self.data = Ten(addr + 8, "long"), Ten(addr + 16, "long"), Ten(addr + 24, elty)
        self.rows, self.cols = self.dims.el(0), self.dims.el(1)
        self.nnz = self.rs.el(self.rows)

    def row(self, i):
        """first position of row i"""
        return self.rs.el(i)

    def count(self, i):
        return self.rs.el(i + 1) - self.rs.el(i)


def sparse_arg(a):
    m = re.match(r"^tensor::Sparse<(.*)>(?: const)?&?$", a.ty)
    return Sp(a.v, m.group(1).strip()) if m else None


B0 = P.a("bv", 0)


def facts_of(s):
    return [ceq(s.dims.size - 2), cge(s.rows), cge(s.cols), ceq(s.rs.size - s.rows - 1), ceq(s.rs.el(0)),
            ceq(s.data.size - s.nnz), ceq(s.col.size - s.nnz), cge(s.nnz),
            ceq(s.data.rank - 1), ceq(s.data.dim(0) - s.nnz),
            ("all", s.rows, cge(s.rs.el(B0 + 1) - s.rs.el(B0)), 0),
            ("all", s.rows + 1, cand([cge(s.rs.el(B0)), cge(s.nnz - s.rs.el(B0))]), 0),
            ("all", s.nnz, cand([cge(s.col.el(B0)), cge(s.cols - 1 - s.col.el(B0))]), 0)]


def formed(ranks=None, consts=None, this=False, key=(), extra=()):
    """partition: sparse operands are well formed, dense ones have the given ranks"""
    base = ranked(ranks or {}, consts or {})

    def preset(w, st):
        base["preset"](w, st)
        sig = Sig(w.fn)
        sps = [sparse_arg(a) for a in sig.args]
        if this:
            m = re.match(r"^tensor::Sparse<(.*?)>::", w.fn["dem"].replace("> >", ">>"))
            t = m.group(1)
            if t.startswith("std::complex") and not t.endswith(">"):
                t += ">"
            sps.append(Sp(sig.this, t))
        for s in sps:
            if s is None:
                continue
            st.vecs[s.addr] = Vec(s.dims.buf, P.c(2), 8)
            st.vecs[s.addr + 32] = Vec(P.a("buf", s.addr + 32), P.c(1), 8)
            for c in facts_of(s):
                st.facts = st.facts.add(c)
        for f in extra:
            st.facts = st.facts.add(f)
    return dict(preset=preset, unroll=base["unroll"] if ranks else 0, key=("formed", base["key"], this) + tuple(key))


def arr(n, *pieces):
    return (n, list(pieces))


def as_is(t):
    """the whole of a vector"""
    return (t.size, [SPiece([t.size], lambda k: t.val(k) if t.cplx else t.el(k))])


def sparse_verdict(w, c, addr, elty, want, F):
    """want: dict(rows, cols, rs=(n, pieces), col=(n, pieces), data=(n, pieces)); None: not stated"""
    cs = CState(w, c)
    out = []
    for what, off, es, ty, key in (("dimensions", 0, 8, "long", "dims"), ("row starts", 8, 8, "long", "rs"), ("columns", 16, 8, "long", "col"),
                                   ("values", 24, esize(elty), elty, "data")):
        sp = want.get(key)
        if sp is None:
            continue
        n, pieces = sp
        if key == "dims" and n == P.c(2):
            v, d = dims_verdict(cs, addr - 8, [pieces[0].value(), pieces[1].value()] if len(pieces) == 2 else [pieces[0].value(P.c(k)) for k in range(2)], F)
            out.append((what, v, d, c.loc))
            continue
        vec = w.vec(cs, addr + off, es)
        s = same(vec.size, n, F)
        if s is False:
            out.append((what, REFUTED, "holds %s entries, not %s" % (show(red(F, vec.size)), show(red(F, n))), c.loc))
        elif s is None:
            out.append((what, UNK, "size not resolved: %s" % show(vec.size)[:100], c.loc))
        try:
            ps = contents(cs, vec.buf, vec.size, es, ty)
            v, d, l = compare_contents(ps, pieces, n, es, F)
            out.append((what, v, d, l or c.loc))
        except (Lost, Unknown) as e:
            out.append((what, UNK, "contents: %s" % e, c.loc))
        if off == 24:
            v, d = dims_verdict(cs, addr + 24, [n], F)
            out.append(("shape of the values", v, d, c.loc))
    return out


def dims2(r, k):
    return (P.c(2), [SPiece([], lambda: r), SPiece([], lambda: k, start=ONE)])


def check_sparse_result(ctx, fn, rule, specf, elty, obj=None, part=None, models=None, tens=()):
    w, cases, err = ctx.summary(fn, models, **(part or formed()))
    if cases is None:
        ctx.unk(fn, rule, err)
        return
    obj = obj if obj is not None else fn.sig.sret
    res, n = [], 0
    for c in cases:
        if c.outcome != "ret":
            continue
        n += 1
        F = facts_with_dims(c.facts, list(tens))
        if infeasible(F):
            continue
        sp = specf(c, F)
        if sp is None:
            continue
        if isinstance(sp, tuple):
            res.append(sp)
            continue
        for q in (sp if isinstance(sp, list) else [sp]):
            G = q.get("facts", F)
            if isinstance(sp, list) and infeasible(G):
                continue
            res += sparse_verdict(w, c, obj, elty, q, G)
    if not n:
        ctx.bad(fn, rule, "the function never returns normally: every path aborts")
        return
    x = worst(res)
    ctx.verdict(fn, rule, x[1], ("%s: %s" % (x[0], x[2])) if x[1] != PROVED else "%d cases" % n, x[3])


# ------------------------------------------------------------------ instances
import itertools, os, random, time
import witness
from witness import Space, Skip, table, spec_table, compare_cell, _int

PATTERNS = [["xx", ".x"], ["x."], [".x.", "xx.", "..x"], ["x"], [".x", "xx"], ["..", "x."], ["xx."], [".", "x"], ["..", ".."], ["x.x", "...", ".xx"],
            ["..xx", "x.x."], [], ["", ""], ["xxx", "xxx"], ["x.x", ".x."], [".x", "..", "x."], ["xx", "xx", ".x"]]


def csr(pat, cols=None):
    rs, col = [0], []
    for r in pat:
        col += [k for k, ch in enumerate(r) if ch == "x"]
        rs.append(len(col))
    return len(pat), (len(pat[0]) if pat else (cols or 0)), rs, col


def options(s, pats=None):
    """concrete structures for a sparse operand, its values left symbolic"""
    out = []
    for p in pats or PATTERNS:
        r, k, rs, col = csr(p)
        n = len(col)
        leaf = {s.dims.size: P.c(2), s.rs.size: P.c(r + 1), s.col.size: P.c(n), s.data.size: P.c(n), s.data.rank: P.c(1)}
        dm = {s.dims.buf: (r, k), s.rs.buf: tuple(rs), s.col.buf: tuple(col), P.a("buf", s.data.addr + 8): (n,)}
        out.append((leaf, dm, "%s: %s" % (show(s.addr), "/".join(p) or "0x0")))
    return out


class Inst:
    """a sparse operand at an instance"""

    def __init__(self, s, env):
        self.s = s
        self.r, self.k = env.dims[s.dims.buf]
        self.rs, self.col = env.dims[s.rs.buf], env.dims[s.col.buf]

    def entries(self):
        for i in range(self.r):
            for x in range(self.rs[i], self.rs[i + 1]):
                yield i, self.col[x], self.s.data.val(x)

    def dense(self):
        d = {}
        for i, j, v in self.entries():
            d[i, j] = v
        return d


def part_table(cs, env, addr, es, ty):
    v = cs.w.vec(cs, addr, es)
    n = _int(env.ev(v.size))
    if n is None:
        raise Skip("size")
    ps = contents(cs, v.buf, v.size, es, ty)
    t = table(ps, env, es, base=v.buf)
    return n, t


def ints_of(cs, env, addr):
    n, t = part_table(cs, env, addr, 8, "long")
    out = []
    for k in range(n):
        e = t.get(8 * k)
        if e is None:
            return n, None, "entry %d is never written" % k
        x = [_int(v) for c, v in e if c == TRUE]
        if len(e) != 1 or not x or x[0] is None:
            raise Skip("entry")
        out.append(x[0])
    if any(o < 0 or o >= 8 * n for o in t):
        return n, None, "a write lands outside the %d entries" % n
    return n, out, None


def vals_of(cs, env, addr, elty, want):
    """want: list of (re, im) -> disagreement or None"""
    es = esize(elty)
    n, t = part_table(cs, env, addr, es, elty)
    if n != len(want):
        return "%d values, not %d" % (n, len(want))
    for o in t:
        if not 0 <= o < n * es:
            return "a write lands outside the %d values" % n
    for k, v in enumerate(want):
        for lane in range(es // 8):
            a = t.get(k * es + 8 * lane)
            if a is None:
                return "value %d is never written" % k
            b = [(TRUE, env.ev(v[lane]))]
            r, d = compare_cell(a, b, [])
            if r == REFUTED:
                return "value %d: %s" % (k, d)
            if r == UNK and not d.startswith("numerically equal"):
                raise Skip(d)
    return None


def same_matrix(cs, env, addr, elty, want):
    """want: (rows, cols, {(i, j): value}) in any entry order the format allows -> disagreement or None"""
    r, k, ent = want
    n, d, bad = ints_of(cs, env, addr)
    if bad or d != [r, k]:
        return "dimensions %s, not %s" % (bad or d, [r, k])
    keys = sorted(ent)
    rs = [sum(1 for i, j in keys if i < q) for q in range(r + 1)]
    n, got, bad = ints_of(cs, env, addr + 8)
    if bad or got != rs:
        return "row starts %s, not %s" % (bad or got, rs)
    n, got, bad = ints_of(cs, env, addr + 16)
    if bad or got != [j for i, j in keys]:
        return "columns %s, not %s" % (bad or got, [j for i, j in keys])
    bad = vals_of(cs, env, addr + 24, elty, [ent[x] for x in keys])
    if bad:
        return bad
    n, got, bad = ints_of(cs, env, addr + 32)
    if bad or got != [len(keys)]:
        return "shape of the values %s" % (bad or got)
    return None


def instances(case, want, sps=(), tens=(), cmp=None, ints=None, extra=(), pats=None, maxok=60, free=()):
    """cmp(env) -> disagreement or None at every instance of the path -> (agreeing instances, disagreement)"""
    sp = Space(list(tens), list(case.facts.conds), ints=ints, extra=[options(s, pats) for s in sps] + list(extra), free=free, maxok=maxok)
    n, why = 0, None
    t0 = time.time()
    for env, residual in sp.envs():
        if time.time() - t0 > 6:
            break
        try:
            if not all(witness.data_cond(c) for c in residual) or spec.consistent(residual, Facts()) is not True:
                continue
            d = cmp(env)
            if d:
                return n, "for %s: %s" % (env.desc, d)
            n += 1
        except (Skip, Lost, Unknown) as e:
            why = str(e)
            if os.environ.get("WDBG"):
                print("WSKIP", env.desc, why)
    return n, None
