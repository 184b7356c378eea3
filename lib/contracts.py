"""Contracts of library functions called from other library functions.

Every contract stated here is an obligation of one of the checks (named beside it), so the
callers are analysed assuming what the callee's own check establishes.
"""
from poly import *
from walk import *
import walk
from models import model, EL, TT, tes, esize, total, vkey, Decline, tnew
from fractions import Fraction


# ------------------------------------------------------------------ lane functions (data, so that effects stay substitutable)
def _c(a):
    return a if len(a) == 2 else (a[0], ZERO)


def _mul(a, b):
    a, b = _c(a), _c(b)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _div(a, b):
    a, b = _c(a), _c(b)
    if not b[1].t:
        r = inv(b[0])
        return (a[0] * r, a[1] * r)
    n = inv(b[0] * b[0] + b[1] * b[1])
    p = _mul(a, (b[0], -b[1]))
    return (p[0] * n, p[1] * n)


OPS = {
    "+": lambda a, b: tuple(x + y for x, y in zip(_c(a), _c(b))),
    "-": lambda a, b: tuple(x - y for x, y in zip(_c(a), _c(b))),
    "*": _mul,
    "/": _div,
}
UN = {
    "neg": lambda a: (-_c(a)[0], -_c(a)[1]),
    "conj": lambda a: (_c(a)[0], -_c(a)[1]),
    "to_complex": lambda a: _c(a),
    "real": lambda a: (a[0], ZERO),
    "imag": lambda a: (_c(a)[1], ZERO),
    "abs": lambda a: (P.a("fn", "cabs", a[0], a[1]) if len(a) == 2 else P.a("fn", "fabs", a[0]), ZERO),
}


def apply_map(name, srcs, params):
    """name: ("un", f) | ("tt", op) | ("ts", op) | ("st", op)"""
    k, f = name
    if k == "un":
        return UN[f](srcs[0])
    if k == "tt":
        return OPS[f](srcs[0], srcs[1])
    if k == "ts":
        return OPS[f](srcs[0], params)
    return OPS[f](params, srcs[0])


walk.MAPS = apply_map


def mapping(w, st, dst, src, name, srcs, es, params, loc):
    """result tensor dst with the extents of src"""
    v = [w.vec(st, s, e) for s, e in srcs]
    n = v[0].size
    buf = fresh("buf", dst)
    st.vecs[dst] = Vec(buf, n, es)
    st.eff.append(("map", buf, n, es, tuple((x.buf, e) for x, (s, e) in zip(v, srcs)), tuple(params), name, loc))
    w.vcopy(st, dst + 8, src + 8, 8, loc)


TEN = r"tensor::Tensor<" + EL + r"> const&"
SC = r"(double|std::complex<double>)"


def scal(w, st, ty, a):
    """scalar parameter lanes from the argument list; -> (lanes, rest)"""
    if ty.startswith("std::complex"):
        return (a[0], a[1]), a[2:]
    return (a[0],), a[1:]


# obligations of C01
@model(r"^tensor::operator([-+*/])\(" + TEN + ", " + SC + r"\)$")
def k_ts(w, st, i, m, a):
    e = esize(m.group(2))
    p, _ = scal(w, st, m.group(3), a[2:])
    es = 16 if e == 16 or len(p) == 2 else 8
    mapping(w, st, a[0], a[1], ("ts", m.group(1)), [(a[1], e)], es, p, i.get("loc"))


@model(r"^tensor::operator([-+*/])\(" + SC + ", " + TEN + r"\)$")
def k_st(w, st, i, m, a):
    e = esize(m.group(3))
    p, rest = scal(w, st, m.group(2), a[1:])
    es = 16 if e == 16 or len(p) == 2 else 8
    mapping(w, st, a[0], rest[0], ("st", m.group(1)), [(rest[0], e)], es, p, i.get("loc"))


@model(r"^tensor::operator([-+*/])\(" + TEN + ", " + TEN + r"\)$")
def k_tt(w, st, i, m, a):
    e1, e2 = esize(m.group(2)), esize(m.group(3))
    w.require(st, ceq(w.vec(st, a[1], e1).size - w.vec(st, a[2], e2).size))
    mapping(w, st, a[0], a[1], ("tt", m.group(1)), [(a[1], e1), (a[2], e2)], max(e1, e2), (), i.get("loc"))


@model(r"^tensor::operator-\(" + TEN + r"\)$")
def k_neg(w, st, i, m, a):
    e = esize(m.group(1))
    mapping(w, st, a[0], a[1], ("un", "neg"), [(a[1], e)], e, (), i.get("loc"))


# obligations of C03
@model(r"^tensor::(real|imag|conj|to_complex|abs)\(" + TEN + r"\)$")
def k_conv(w, st, i, m, a):
    e = esize(m.group(2))
    nm = m.group(1)
    es = 16 if nm == "to_complex" else 8 if nm in ("real", "imag", "abs") else e
    mapping(w, st, a[0], a[1], ("un", nm), [(a[1], e)], es, (), i.get("loc"))


def emit(w, st, dst, dims, elty, pieces, loc):
    """result tensor with the given extents, elements described like a specification (list of (extents, strides|None, start, value))"""
    es = esize(elty)
    tnew(w, st, dst, dims, es, loc)
    v = w.vec(st, dst, es)
    for ext, strides, start, value in pieces:
        ks = []
        F = st.facts
        for x in ext:
            w.iv_uid += 1
            k = P.a("iv", "k%d" % w.iv_uid)
            ks.append(k)
        if strides is None:
            strides, acc = [], ONE
            for x in ext:
                strides.append(acc)
                acc = acc * x
        off = start.scale(es)
        s2 = st.clone()
        for k, s, x in zip(ks, strides, ext):
            off = off + k * s.scale(es)
            s2.facts = w.with_nonneg(s2.facts, list(k.atoms())[0]).add(cge(x - 1 - k))
        val = value(s2, *ks)
        body = [("st", v.buf + off + 8 * j, 8, val[j], loc, "double") for j in range(es // 8)]
        for k, x in zip(ks, ext):
            body = [("for", list(k.atoms())[0], x, [((), body)], {"uid": 0, "loc": loc, "nlatch": 1})]
        st.eff += body


def element(w, st, s, buf, es, pos):
    """lanes of the element at linear position pos"""
    return tuple(w.lookup(st, buf + pos.scale(es) + 8 * j, 8, "double", len(s.eff)) for j in range(es // 8))


def lookup_lanes(w, st, buf, es, pos):
    return tuple(w.lookup(st, buf + pos.scale(es) + 8 * j, 8, "double", len(st.eff)) for j in range(es // 8))


# obligation of C08
@model(r"^tensor::sum\(" + TEN + r"\)$")
def k_sum(w, st, i, m, a):
    es = esize(m.group(1))
    v = w.vec(st, a[1] if len(a) == 2 else a[0], es)
    k = fresh("iv", "q")
    kid = list(k.atoms())[0]
    s2 = st.clone()
    s2.facts = w.with_nonneg(s2.facts, kid).add(cge(v.size - 1 - k))
    x = lookup_lanes(w, s2, v.buf, es, k)
    r = tuple(mksum(y, kid, v.size) for y in x)
    if es == 8:
        return r[0]
    return ("agg",) + r


# ------------------------------------------------------------------ BLAS
def untrunc(p):
    """BLAS integers are 32 bits wide: the analysis assumes the extents passed to BLAS fit (documented limit of the back end)"""
    if not isinstance(p, P):
        return p
    sub = {}
    for i in p.atoms():
        t = atom(i)
        if t[0] == "trunc" and t[1] == 32:
            sub[i] = t[2]
    return subst(p, sub) if sub else p


OPN = {111: "N", 112: "T", 113: "C"}


@model(r"^cblas_(d|z)gemm$")
def b_gemm(w, st, i, m, a):
    order, ta, tb = [int(x.const()) if x.const() is not None else None for x in a[:3]]
    if order != 102 or ta not in OPN or tb not in OPN:
        raise Unknown("gemm mode")
    a = [untrunc(x) for x in a]
    M, N, K = a[3:6]
    es = 16 if m.group(1) == "z" else 8
    if es == 8:
        al, be = (a[6],), (a[11],)
    else:
        al = tuple(w.lookup(st, a[6] + 8 * j, 8, "double", len(st.eff)) for j in range(2))
        be = tuple(w.lookup(st, a[11] + 8 * j, 8, "double", len(st.eff)) for j in range(2))
    A, lda, B, ldb, C, ldc = a[7], a[8], a[9], a[10], a[12], a[13]
    loc = i.get("loc")
    bc = base_of(C)[0]
    if bc is None or bc in (base_of(A)[0], base_of(B)[0]):
        raise Unknown("gemm aliasing")
    # documented preconditions of the BLAS (an illegal value makes xerbla stop the program)
    st.eff.append(("blas", "gemm", (OPN[ta], OPN[tb], M, N, K, lda, ldb, ldc), loc))
    w.iv_uid += 1
    u = w.iv_uid
    ki, kj, kl = (P.a("iv", "g%s%d" % (c, u)) for c in "ijl")
    idi, idj, idl = (list(k.atoms())[0] for k in (ki, kj, kl))
    s2 = st.clone()
    s2.facts = w.with_nonneg(w.with_nonneg(w.with_nonneg(s2.facts, idi), idj), idl).add(cge(M - 1 - ki)).add(cge(N - 1 - kj)).add(cge(K - 1 - kl))

    def el(buf, ld_, r, c, op):
        if op != "N":
            r, c = c, r
        x = lookup_lanes(w, s2, buf, es, r + ld_ * c)
        return (x[0], -x[1]) if op == "C" and es == 16 else x
    x = el(A, lda, ki, kl, OPN[ta])
    y = el(B, ldb, kl, kj, OPN[tb])
    p = _mul(x, y)
    s = tuple(mksum(q, idl, K) for q in p)
    v = _mul(al, s)
    if any(b.t for b in be):
        c0 = lookup_lanes(w, s2, C, es, ki + ldc * kj)
        v = OPS["+"](v, _mul(be, c0))
    pos = C + (ki + ldc * kj).scale(es)
    body = [("st", pos + 8 * j, 8, v[j], loc, "double") for j in range(es // 8)]
    st.eff.append(("for", idj, N, [((), [("for", idi, M, [((), body)], {"uid": 0, "loc": loc, "nlatch": 1})])], {"uid": 0, "loc": loc, "nlatch": 1}))


# obligation of C08
@model(r"^tensor::mean\(" + TEN + r"\)$")
def k_mean(w, st, i, m, a):
    es = esize(m.group(1))
    v = w.vec(st, a[-1], es)
    s = k_sum(w, st, i, m, a)
    q = inv(v.size)
    if es == 8:
        return s * q
    return ("agg",) + tuple(x * q for x in s[1:])


# obligation of C11
@model(r"^tensor::Indices::range\(long, long, long\)$")
def k_range(w, st, i, m, a):
    if not isinstance(a[3], P) or a[3].const() != 1:
        raise Decline()
    lo, hi = a[1], a[2]
    n = hi - lo + 1
    if not st.facts.ge0(n):
        raise Decline()
    w.vnew(st, a[0], n, 8, i.get("loc"))
    buf = st.vecs[a[0]].buf
    w.iv_uid += 1
    k = P.a("iv", "r%d" % w.iv_uid)
    st.eff.append(("for", list(k.atoms())[0], n, [((), [("st", buf + k.scale(8), 8, lo + k, i.get("loc"), "i64")])], {"uid": 0, "loc": i.get("loc"), "nlatch": 1}))


def _ctx_dims(w, st, addr, n):
    v = w.vec(st, addr + 8, 8)
    return [w.lookup(st, v.buf + 8 * j, 8, "i64", len(st.eff)) for j in range(n)]


def _known(w, st, addr):
    r = w.vec(st, addr + 8, 8).size.const()
    if r is None:
        r = st.facts.reduce(w.vec(st, addr + 8, 8).size).const()
    return int(r) if r is not None else None


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


# obligation of C10
@model(r"^tensor::(fold|foldc)\(tensor::Tensor<" + EL + r"> const&, int, tensor::Tensor<" + EL + r"> const&, int\)$")
def k_fold(w, st, i, m, a):
    conj = m.group(1) == "foldc"
    e1, e2 = esize(m.group(2)), esize(m.group(3))
    if e1 != e2:
        raise Decline()
    ra, rb = _known(w, st, a[1]), _known(w, st, a[3])
    n1, n2 = (untrunc(a[2]).const(), untrunc(a[4]).const())
    if ra is None or rb is None or n1 is None or n2 is None:
        raise Decline()
    w.require(st, cand([cge(P.c(n1 + ra)), cge(P.c(ra - 1 - n1)), cge(P.c(n2 + rb)), cge(P.c(rb - 1 - n2))]))
    n1, n2 = int(n1) % ra, int(n2) % rb
    da, db = _ctx_dims(w, st, a[1], ra), _ctx_dims(w, st, a[3], rb)
    w.require(st, ceq(da[n1] - db[n2]))
    w.require(st, cge(da[n1] - 1))
    L = da[n1]
    I, J, K, M = _prod(da[:n1]), _prod(da[n1 + 1:]), _prod(db[:n2]), _prod(db[n2 + 1:])
    dims = (da[:n1] + da[n1 + 1:] + db[:n2] + db[n2 + 1:]) or [ONE]
    A, B = w.vec(st, a[1], e1), w.vec(st, a[3], e2)

    def value(s2, ki, kj, kk, km):
        l = fresh("iv", "q")
        lid = list(l.atoms())[0]
        s3 = s2.clone()
        s3.facts = w.with_nonneg(s3.facts, lid).add(cge(L - 1 - l))
        x = lookup_lanes(w, s3, A.buf, e1, ki + I * (l + L * kj))
        y = lookup_lanes(w, s3, B.buf, e2, kk + K * (l + L * km))
        if conj and e1 == 16:
            x = (x[0], -x[1])
        return tuple(mksum(p, lid, L) for p in _mul(x, y))
    emit(w, st, a[0], dims, m.group(2), [([I, J, K, M], None, ZERO, value)], i.get("loc"))


# obligation of C10
@model(r"^tensor::(kron|kron2)\(tensor::Tensor<" + EL + r"> const&, tensor::Tensor<" + EL + r"> const&\)$")
def k_kron(w, st, i, m, a):
    es = esize(m.group(2))
    slow, fast = (a[1], a[2]) if m.group(1) == "kron" else (a[2], a[1])
    rs, rf = _known(w, st, slow), _known(w, st, fast)
    if rs is None or rf is None:
        raise Decline()
    w.require(st, cand([ceq(P.c(rs - rf)), cge(P.c(2 - rs))]))
    S, Fv = w.vec(st, slow, es), w.vec(st, fast, es)
    if rs == 1:
        I, J, K, L = Fv.size, S.size, ONE, ONE
    else:
        (I, K), (J, L) = _ctx_dims(w, st, fast, 2), _ctx_dims(w, st, slow, 2)

    def value(s2, ki, kj, kk, kl):
        return _mul(lookup_lanes(w, s2, S.buf, es, kj + J * kl), lookup_lanes(w, s2, Fv.buf, es, ki + I * kk))
    emit(w, st, a[0], [I * J] if rs == 1 else [I * J, K * L], m.group(2), [([I, J, K, L], None, ZERO, value)], i.get("loc"))


# obligation of C09
@model(r"^tensor::(transpose|adjoint)\(" + TEN + r"\)$")
def k_transpose(w, st, i, m, a):
    es = esize(m.group(2))
    if _known(w, st, a[1]) != 2:
        raise Decline()
    r, c = _ctx_dims(w, st, a[1], 2)
    A = w.vec(st, a[1], es)
    conj = m.group(1) == "adjoint"

    def value(s2, kc, kr):
        x = lookup_lanes(w, s2, A.buf, es, kr + r * kc)
        return (x[0], -x[1]) if conj and es == 16 else x
    emit(w, st, a[0], [c, r], m.group(2), [([c, r], None, ZERO, value)], i.get("loc"))


# obligation of C05
@model(r"^tensor::Tensor<" + EL + r">::eye\(long(, long)?\)$")
def k_eye(w, st, i, m, a):
    r = a[1]
    c = a[2] if m.group(2) else r
    emit(w, st, a[0], [r, c], m.group(1), [([r, c], None, ZERO, lambda s, x, y: (mkb2i(ceq(x - y)), ZERO))], i.get("loc"))


# obligation of C13
@model(r"^tensor::sparse_rows\(tensor::Indices const&, tensor::Indices const&\)$")
def k_sparse_rows(w, st, i, m, a):
    rs, col = w.vec(st, a[1], 8), w.vec(st, a[2], 8)
    w.vnew(st, a[0], col.size, 8, i.get("loc"))
    buf = st.vecs[a[0]].buf
    w.iv_uid += 2
    x, y = P.a("iv", "r%d" % w.iv_uid), P.a("iv", "r%d" % (w.iv_uid - 1))
    xi, yi = list(x.atoms())[0], list(y.atoms())[0]
    s2 = st.clone()
    s2.facts = w.with_nonneg(s2.facts, xi)
    at = lambda k: w.lookup(s2, rs.buf + k.scale(8), 8, "i64", len(st.eff))
    loc = i.get("loc")
    inner = ("for", yi, at(x + 1) - at(x), [((), [("st", buf + (at(x) + y).scale(8), 8, x, loc, "i64")])], {"uid": 0, "loc": loc, "nlatch": 1})
    st.eff.append(("for", xi, rs.size - 1, [((), [inner])], {"uid": 0, "loc": loc, "nlatch": 1}))


# obligation of C13
@model(r"^tensor::Sparse<" + EL + r">::Sparse\(long, long, long\)$")
def k_sparse_empty(w, st, i, m, a):
    if not isinstance(a[3], P) or a[3].const() != 0:
        raise Decline()
    loc = i.get("loc")
    obj, r, c = a[:3]
    w.vnew(st, obj, P.c(2), 8, loc)
    b = st.vecs[obj].buf
    st.eff += [("st", b, 8, r, loc, "i64"), ("st", b + 8, 8, c, loc, "i64")]
    w.vnew(st, obj + 8, r + 1, 8, loc)
    b = st.vecs[obj + 8].buf
    w.iv_uid += 1
    k = P.a("iv", "r%d" % w.iv_uid)
    st.eff.append(("for", list(k.atoms())[0], r + 1, [((), [("st", b + k.scale(8), 8, ZERO, loc, "i64")])], {"uid": 0, "loc": loc, "nlatch": 1}))
    w.vnew(st, obj + 16, ZERO, 8, loc)
    tnew(w, st, obj + 24, [ZERO], esize(m.group(1)), loc)
