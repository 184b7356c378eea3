"""Transfer functions of the library primitives that the front end keeps opaque.

Each model states what the primitive does to the abstract state.  The models of
Tensor / Vector members are themselves obligations: the checks element-addressing,
shape-invariants and cow-isolation analyse the bodies of those members in the unit
that instantiates them.
"""
import re
from poly import *
from walk import *


def esize(t):
    t = t.strip()
    if t.startswith("std::complex") or t.startswith("cdouble"):
        return 16
    if t == "bool":
        return 1
    if t in ("int", "float"):
        return 4
    return 8


class Decline(Exception):
    """the contract does not apply to this call: treat the callee as unknown"""


EL = r"((?:std::complex<double>|double|long|bool|int|unsigned long)) ?"
_T = []


def model(rx):
    def deco(f):
        _T.append((re.compile(rx), f))
        return f
    return deco


class Models:
    def __init__(self, extra=(), drop=()):
        import contracts
        self.cache = {}
        self.tab = list(extra) + [t for t in _T if t[1].__name__ not in drop]

    def find(self, d):
        if d in self.cache:
            return self.cache[d]
        r = None
        for rx, f in self.tab:
            m = rx.search(d)
            if m:
                r = (lambda w, st, i, dd, a, m=m, f=f: f(w, st, i, m, a))
                break
        self.cache[d] = r
        return r


def tes(m):
    return esize(m.group(1))


# ------------------------------------------------------------------ destructors
@model(r"^tensor::(Vector|Tensor|Indices|Booleans|Sparse|PRange|RefPointer)?<?.*::~")
def m_dtor(w, st, i, m, a):
    return None


# ------------------------------------------------------------------ Vector
@model(r"^tensor::Vector<" + EL + r">::Vector\(\)")
def v_default(w, st, i, m, a):
    w.vnew(st, a[0], ZERO, tes(m), i.get("loc"))


@model(r"^tensor::Vector<" + EL + r">::Vector\(long\)")
def v_size_ctor(w, st, i, m, a):
    w.vnew(st, a[0], a[1], tes(m), i.get("loc"))


@model(r"^tensor::Vector<" + EL + r">::Vector\(tensor::Vector<.*const&\)")
def v_copy_ctor(w, st, i, m, a):
    w.vcopy(st, a[0], a[1], tes(m), i.get("loc"))


@model(r"^tensor::Vector<" + EL + r">::Vector\(long, .*\*\)")
def v_wrap_ctor(w, st, i, m, a):
    st.vecs[a[0]] = Vec(a[2], a[1], tes(m))


@model(r"^tensor::Vector<" + EL + r">::operator=\(")
def v_assign(w, st, i, m, a):
    if a[0] != a[1]:
        w.vcopy(st, a[0], a[1], tes(m), i.get("loc"))
    return a[0]


@model(r"^tensor::Vector<" + EL + r">::resize\(")
def v_resize(w, st, i, m, a):
    w.vnew(st, a[0], a[1], tes(m), i.get("loc"))


@model(r"^tensor::Vector<" + EL + r">::size\(\)")
def v_size(w, st, i, m, a):
    return w.vec(st, a[0], tes(m)).size


@model(r"^tensor::Vector<" + EL + r">::(operator\[\]|at)\(long\)")
def v_elem(w, st, i, m, a):
    es = tes(m)
    w.note_access(st, a[0], a[1], m.group(2) == "at", i)
    return w.vec(st, a[0], es).buf + a[1].scale(es)


@model(r"^tensor::Vector<" + EL + r">::(begin|begin_const)\(\)")
def v_begin(w, st, i, m, a):
    return w.vec(st, a[0], tes(m)).buf


@model(r"^tensor::Vector<" + EL + r">::(end|end_const)\(\)")
def v_end(w, st, i, m, a):
    v = w.vec(st, a[0], tes(m))
    return v.buf + v.size.scale(v.es)


@model(r"^bool tensor::operator==<.*>\(tensor::Vector<")
def v_eq(w, st, i, m, a):
    return ("bool", P.a("veq", vkey(w, st, a[0]), vkey(w, st, a[1])))


def vkey(w, st, addr):
    """content identity of a small index vector"""
    v = w.vec(st, addr)
    n = v.size.const()
    if n is not None and n <= 8:
        return tuple(["dims"] + [w.vread(st, addr, k) for k in range(int(n))])
    b = origin(w, st, v.buf)
    return ("vec", b)


def origin(w, st, buf):
    """follow copies that were not written since"""
    n = len(st.eff)
    base = list(buf.atoms())[0] if len(buf.t) == 1 else None
    while n > 0:
        n -= 1
        e = st.eff[n]
        if e[0] in ("st", "cpy", "set", "for", "havoc"):
            if base in touched(e):
                return P.a("modv", buf, n)
        elif e[0] == "vcopy" and e[1] == buf:
            buf = e[2]
            base = list(buf.atoms())[0] if len(buf.t) == 1 else None
    return buf


# ------------------------------------------------------------------ std::vector arguments (read only)
@model(r"^std::vector<(double|std::complex<double>|long|bool|int|unsigned long), .*>::(size|begin|end|empty)\(\)( const)?$")
def sv_get(w, st, i, m, a):
    if m.group(1) == "bool":
        raise Unknown("vector<bool>")
    b, o = base_of(a[0])
    for e in st.eff:
        if e[0] == "call" and e[1].startswith("std::vector") and a[0] in [x for x in e[2] if isinstance(x, P)]:
            raise Unknown("std::vector modified")
    n = P.a("svsize", a[0])
    buf = P.a("svbuf", a[0])
    st.facts = st.facts.add(cge(n))
    k = m.group(2)
    return n if k == "size" else buf if k == "begin" else buf + n.scale(tes(m)) if k == "end" else ceq(n)


# ------------------------------------------------------------------ Indices
@model(r"^tensor::Indices::total_size\(\)")
def i_total(w, st, i, m, a):
    return total(w, st, a[0])


def total(w, st, addr):
    v = w.vec(st, addr)
    n = v.size.const()
    if n is not None and n <= 8:
        if n == 0:
            return ZERO
        r = ONE
        for k in range(int(n)):
            r = r * w.vread(st, addr, k)
        return r
    key = vkey(w, st, addr)
    if lostkey(key) and st.facts.ge0(n_(v.size) - 1):
        s = dimsegs(w, st, addr)
        if s is not None:
            r = ONE
            for g in s:
                r = r * (g[3] if g[2] == "one" else segprod(st.facts, g))
            return r
    return P.a("total", key)


def n_(x):
    return x


def lostkey(key):
    return any(atom(i)[0] in ("modv", "buf") and (atom(i)[0] == "modv" or len(atom(i)) > 2) for z in key[1:] for i in all_atoms(z)) if key[0] == "vec" else False


def segprod(F, g, lo=None, hi=None):
    """product over a run of copied extents; the whole of a vector is its total"""
    _, _, _, buf, a, b = g
    return rangeprod(buf, a if lo is None else lo, b if hi is None else hi)


def dimprod(w, st, addr, lo, hi):
    """product of the entries lo..hi of a vector of extents"""
    v = w.vec(st, addr)
    key = vkey(w, st, addr)
    if not lostkey(key) and key[0] == "vec":
        return rangeprod(key[1], lo, hi)
    segs = dimsegs(w, st, addr)
    F = st.facts
    if segs is not None:
        r, at, on = ONE, None, False
        for g in segs:
            if not on and F.eq0(g[0] - lo):
                on = True
                at = lo
            if on and F.eq0(g[0] - hi):
                return r
            if on:
                r = r * (g[3] if g[2] == "one" else segprod(F, g))
        if on and F.eq0(segs[-1][1] - hi):
            return r
        if F.eq0(hi - lo):
            return ONE
    return P.a("unk", "dimprod", repr(show(lo)), len(st.eff))


class _S:
    def __init__(self, w, st):
        self.w, self.facts, self.eff, self.vecs, self.env = w, st.facts, st.eff, st.vecs, {}

    def upto(self, n):
        s = _S(self.w, self)
        s.eff = self.eff[:n]
        return s


def dimsegs(w, st, addr):
    """describe a vector of extents as runs copied from initial vectors and single values:
    [(start, end, "rng", buf, lo, hi) | (start, end, "one", value)] covering [0,size) in order, or None"""
    import spec
    v = w.vec(st, addr)
    F = st.facts
    try:
        ps = spec.contents(_S(w, st), v.buf, v.size, 8, "long")
    except (spec.Lost, Unknown):
        return None
    segs = []
    for p in ps:
        if len(p.alts) != 1 or p.alts[0][0] or len(p.loops) > 1 or not isinstance(p.alts[0][1], P):
            return None
        val = p.alts[0][1]
        if p.loops:
            k, T = p.loops[0]
            s = spec.coef(p.off, k)
            if s is None or s.const() != 8:
                return None
            start = exact_div(p.off - s * P({(k,): 1}), 8)
            a = val.single()
            if start is None or not a or a[0] != "ld" or a[1] != "i64":
                return None
            b, o = base_of(a[2])
            if b is None or atom(b)[0] != "buf" or len(atom(b)) != 2:
                return None
            c = spec.coef(o, k)
            lo = exact_div(o - P({(k,): 8}), 8) if c is not None and c.const() == 8 else None
            if lo is None:
                return None
            new = (start, start + T, "rng", P({(b,): 1}), lo, lo + T)
        else:
            start = exact_div(p.off, 8)
            if start is None:
                return None
            new = (start, start + 1, "one", val)
        if F.eq0(new[0] - new[1]):
            continue
        if not segs or F.eq0(new[0] - segs[-1][1]):
            segs.append(new)
            continue
        for n, g in enumerate(segs):
            if F.ge0(new[0] - g[0]) and F.ge0(g[1] - new[1]):
                parts = []
                if g[2] == "one":
                    segs[n] = new
                    break
                if not F.eq0(new[0] - g[0]):
                    parts.append((g[0], new[0], "rng", g[3], g[4], g[4] + new[0] - g[0]))
                parts.append(new)
                if not F.eq0(g[1] - new[1]):
                    parts.append((new[1], g[1], "rng", g[3], g[4] + new[1] - g[0], g[5]))
                segs[n:n + 1] = parts
                break
        else:
            return None
    if not segs or not F.eq0(segs[0][0]) or not F.eq0(segs[-1][1] - v.size):
        return None
    return segs


@model(r"^tensor::(?:Indices|Booleans)::(?:Indices|Booleans)\(\)")
def i_default(w, st, i, m, a):
    w.vnew(st, a[0], ZERO, 8, i.get("loc"))


@model(r"^tensor::Indices::Indices\(long\)")
def i_size_ctor(w, st, i, m, a):
    w.vnew(st, a[0], a[1], 8, i.get("loc"))


@model(r"^tensor::Indices::(?:Indices|operator=)\(tensor::(?:Indices|Vector<long>) const&\)")
def i_copy_ctor(w, st, i, m, a):
    if a[0] != a[1]:
        w.vcopy(st, a[0], a[1], 8, i.get("loc"))
    return a[0]


# ------------------------------------------------------------------ Tensor (external instantiations)
TT = r"^tensor::Tensor<" + EL + r">::"


def tnew(w, st, addr, dims, es, loc=None):
    sz = ONE
    for d in dims:
        sz = sz * d
    w.vnew(st, addr, sz, es, loc)
    w.vnew(st, addr + 8, P.c(len(dims)), 8, loc)
    for k, d in enumerate(dims):
        w.vwrite(st, addr + 8, k, d, loc)


@model(TT + r"Tensor\(\)")
def t_default(w, st, i, m, a):
    w.vnew(st, a[0], ZERO, tes(m), i.get("loc"))
    w.vnew(st, a[0] + 8, ZERO, 8, i.get("loc"))


@model(TT + r"Tensor\((long(?:, long)*)\)")
def t_dims_ctor(w, st, i, m, a):
    tnew(w, st, a[0], a[1:], tes(m), i.get("loc"))


@model(TT + r"Tensor\(tensor::Indices const&\)")
def t_indices_ctor(w, st, i, m, a):
    sz = total(w, st, a[1])
    w.vnew(st, a[0], sz, tes(m), i.get("loc"))
    w.vcopy(st, a[0] + 8, a[1], 8, i.get("loc"))


@model(TT + r"Tensor\(tensor::Indices const&, tensor::Tensor<.*const&\)")
def t_reshape_ctor(w, st, i, m, a):
    w.vcopy(st, a[0], a[2], tes(m), i.get("loc"))
    w.vcopy(st, a[0] + 8, a[1], 8, i.get("loc"))
    w.require(st, ceq(total(w, st, a[1]) - w.vec(st, a[2], tes(m)).size))


@model(TT + r"Tensor\(tensor::Vector<.*const&\)")
def t_vector_ctor(w, st, i, m, a):
    w.vcopy(st, a[0], a[1], tes(m), i.get("loc"))
    w.vnew(st, a[0] + 8, ONE, 8, i.get("loc"))
    w.vwrite(st, a[0] + 8, 0, w.vec(st, a[0], tes(m)).size, i.get("loc"))


@model(TT + r"(?:Tensor|operator=)\(tensor::Tensor<" + EL + r"> const&\)")
def t_copy(w, st, i, m, a):
    if m.group(1).split()[0] != m.group(2).split()[0]:
        raise Unknown("cross type copy")
    if a[0] != a[1]:
        w.vcopy(st, a[0], a[1], tes(m), i.get("loc"))
        w.vcopy(st, a[0] + 8, a[1] + 8, 8, i.get("loc"))
    return a[0]


@model(TT + r"(dimension)\(int\)")
def t_dimension(w, st, i, m, a):
    r = w.vec(st, a[0] + 8).size
    st.facts = st.facts.add(cge(r - 1 - a[1])).add(cge(a[1]))
    return w.vread(st, a[0] + 8, a[1])


@model(TT + r"get_dimensions\(")
def t_get_dimensions(w, st, i, m, a):
    n = len(a) - 1
    w.require(st, ceq(w.vec(st, a[0] + 8).size - n))
    for k in range(n):
        v = w.vread(st, a[0] + 8, k)
        st.eff.append(("st", a[1 + k], 8, v, i.get("loc"), "i64"))


@model(TT + r"reshape\(")
def t_reshape(w, st, i, m, a):
    w.require(st, ceq(total(w, st, a[1]) - w.vec(st, a[0], tes(m)).size))
    w.vcopy(st, a[0] + 8, a[1], 8, i.get("loc"))


def norm(st, ix, d):
    """wrap a possibly negative index; the primitive asserts 0<=result<d"""
    if st.facts.ge0(ix):
        r = ix
        st.facts = st.facts.add(cge(d - 1 - ix))
    elif st.facts.ge0(-ix - 1):
        r = ix + d
        st.facts = st.facts.add(cge(r))
    else:
        r = P.a("norm", ix, d)
        st.facts = st.facts.add(cge(r)).add(cge(d - 1 - r))
    return r


@model(TT + r"(operator\[\]|at_seq)\(long\)")
def t_seq(w, st, i, m, a):
    es = tes(m)
    w.note_access(st, a[0], a[1], m.group(2) != "operator[]", i)
    return w.vec(st, a[0], es).buf + a[1].scale(es)


@model(TT + r"(operator\(\)|at)\((long(?:, long)*)\)")
def t_elem(w, st, i, m, a):
    es = tes(m)
    v = w.vec(st, a[0], es)
    n = len(a) - 1
    dv = w.vec(st, a[0] + 8)
    if n == 1:
        if m.group(2) != "at":
            w.require(st, ceq(dv.size - 1))
        lin = norm(st, a[1], v.size)
        return v.buf + lin.scale(es)
    w.require(st, ceq(dv.size - n))
    lin = ZERO
    for k in reversed(range(n)):
        d = w.vread(st, a[0] + 8, k)
        lin = lin * d + norm(st, a[1 + k], d)
    return v.buf + lin.scale(es)


@model(TT + r"fill_with\(")
def t_fill(w, st, i, m, a):
    es = tes(m)
    v = w.vec(st, a[0], es)
    vals = [w.lookup(st, a[1] + 8 * j, 8, "double", len(st.eff)) for j in range(es // 8)]
    fill(w, st, v, vals, i.get("loc"))


def fill(w, st, v, vals, loc):
    w.iv_uid += 1
    k = P.a("iv", "f%d" % w.iv_uid)
    kid = list(k.atoms())[0]
    st.eff.append(("for", kid, v.size, [((), [("st", v.buf + k.scale(v.es) + 8 * j, 8, x, loc, "double") for j, x in enumerate(vals)])], {"uid": 0, "loc": loc, "nlatch": 1}))


@model(TT + r"(zeros|ones)\((.*)\)")
def t_const(w, st, i, m, a):
    es = tes(m)
    args = a[1:]
    if "Indices" in m.group(3):
        sz = total(w, st, args[0])
        w.vnew(st, a[0], sz, es, i.get("loc"))
        w.vcopy(st, a[0] + 8, args[0], 8, i.get("loc"))
    else:
        dims = list(args)
        if len(dims) == 1:
            dims = dims * 2
        tnew(w, st, a[0], dims, es, i.get("loc"))
    one = ONE if m.group(2) == "ones" else ZERO
    fill(w, st, w.vec(st, a[0], es), [one] + [ZERO] * (es // 8 - 1), i.get("loc"))


# ------------------------------------------------------------------ reshape (obligations of the shape check)
@model(r"^tensor::reshape\(tensor::Tensor<" + EL + r"> const&, (.*)\)$")
def f_reshape(w, st, i, m, a):
    es = tes(m)
    loc = i.get("loc")
    v = w.vec(st, a[1], es)
    if "Indices" in m.group(2):
        w.require(st, ceq(total(w, st, a[2]) - v.size))
        w.vcopy(st, a[0], a[1], es, loc)
        w.vcopy(st, a[0] + 8, a[2], 8, loc)
        return None
    tot = ONE
    for d in a[2:]:
        tot = tot * d
    w.require(st, ceq(tot - v.size))
    w.vcopy(st, a[0], a[1], es, loc)
    w.vnew(st, a[0] + 8, P.c(len(a) - 2), 8, loc)
    for k, d in enumerate(a[2:]):
        w.vwrite(st, a[0] + 8, k, d, loc)


# ------------------------------------------------------------------ helpers defined in other units
@model(r"^tensor::surrounding_dimensions\(")
def h_surround(w, st, i, m, a):
    """d1 = prod dims[0..n), d2 = dims[n], d3 = prod dims(n..rank)   (checked by view/contraction checks)"""
    dims, n = a[0], a[1]
    v = w.vec(st, dims)
    r = v.size.const()
    k = n.const()
    if k is None or r is None:
        w.require(st, cge(n))
        w.require(st, cge(v.size - 1 - n))
    if r is not None and k is not None and r <= 8:
        ds = [w.vread(st, dims, j) for j in range(int(r))]
        p1 = ONE
        for j in range(int(k)):
            p1 = p1 * ds[j]
        p3 = ONE
        for j in range(int(k) + 1, int(r)):
            p3 = p3 * ds[j]
        vals = [p1, ds[int(k)], p3]
    else:
        vals = [dimprod(w, st, dims, ZERO, n), w.vread(st, dims, n), dimprod(w, st, dims, n + 1, v.size)]
    for j in range(3):
        st.eff.append(("st", a[2 + j], 8, vals[j], i.get("loc"), "i64"))


@model(r"^tensor::verify_tensor_dimensions_match\(")
def h_verify(w, st, i, m, a):
    x, y = sorted((vkey(w, st, a[0]), vkey(w, st, a[1])), key=repr)
    return ("bool", P.a("dimseq", x, y))


@model(r"^tensor::all_equal\(tensor::Indices const&, tensor::Indices const&\)")
def h_alleq(w, st, i, m, a):
    x, y = sorted((vkey(w, st, a[0]), vkey(w, st, a[1])), key=repr)
    return ("bool", P.a("dimseq", x, y))


# ------------------------------------------------------------------ memory management, misc
@model(r"^operator new(\[\])?\(unsigned long\)")
def m_new(w, st, i, m, a):
    h = fresh("heap", "new[]" if m.group(1) else "new")
    st.eff.append(("alloc", h, a[0], i.get("loc"), "new[]" if m.group(1) else "new"))
    return h


@model(r"^malloc$")
def m_malloc(w, st, i, m, a):
    h = fresh("heap", "malloc")
    st.eff.append(("alloc", h, a[0], i.get("loc"), "malloc"))
    return h


@model(r"^(?:operator delete(\[\])?\(void\*|free$)")
def m_delete(w, st, i, m, a):
    st.eff.append(("free", a[0], i.get("loc"), m.group(0)))


def note_access(self, st, addr, ix, mutable, i):
    h = getattr(self, "on_access", None)
    if h:
        h(st, addr, ix, mutable, i)


Walker.note_access = note_access


# ------------------------------------------------------------------ C++ library algorithms kept opaque
@model(r"\bstd::find<(bool|long|double|int|unsigned long)( const)?\*, \1>\(")
def a_find(w, st, i, m, a):
    ty = {"bool": "i8", "double": "double", "int": "i32"}.get(m.group(1), "i64")
    es = esize(m.group(1))
    d = a[1] - a[0]
    n = exact_div(d, es)
    if n is None:
        raise Unknown("find range")
    v = w.lookup(st, a[2], es, ty, len(st.eff))

    def c(k):
        x = w.lookup(st, a[0] + k.scale(es), es, ty, len(st.eff))
        if ty == "i8":
            b = ("bool", P.a("bitand", x, ONE))
            k0 = v.const()
            if k0 is None:
                raise Unknown("find value")
            return b if k0 else cnot(b)
        return cf("oeq", x, v) if ty == "double" else ceq(x - v)
    kx = fresh("kx", "find")
    lv = P.a("bv", 0)
    body = cnot(c(lv))
    return Fork([([("all", n, body, 0)], a[1]),
                 ([cge(kx), cge(n - 1 - kx), c(kx), cne(n - kx)], a[0] + kx.scale(es))])


@model(r"^memcmp$")
def a_memcmp(w, st, i, m, a):
    for p in (a[0], a[1]):
        b, o = base_of(p)
        for e in st.eff:
            if b is None or b in touched(e):
                raise Unknown("memcmp of modified memory")
    return P.a("memcmp", a[0], a[1], a[2])


# ------------------------------------------------------------------ Sparse (the bodies are obligations of the sparse-structure check)
SP = r"tensor::Sparse<(double|std::complex<double>)>::"


def sp_parts(a):
    return [a, a + 8, a + 16, a + 24, a + 32]


@model(r"^" + SP + r"Sparse\(tensor::Indices const&, tensor::Indices const&, tensor::Indices const&, tensor::Tensor<.*> const&\)$")
def sp_parts_ctor(w, st, i, m, a):
    for d, s, es in ((0, a[1], 8), (8, a[2], 8), (16, a[3], 8), (24, a[4], tes(m)), (32, a[4] + 8, 8)):
        w.vcopy(st, a[0] + d, s, es, i.get("loc"))


@model(r"^" + SP + r"Sparse\(tensor::Sparse<(double|std::complex<double>)> const&\)$")
def sp_copy_ctor(w, st, i, m, a):
    if m.group(1) != m.group(2):
        raise Decline()
    for d, es in ((0, 8), (8, 8), (16, 8), (24, tes(m)), (32, 8)):
        w.vcopy(st, a[0] + d, a[1] + d, es, i.get("loc"))


@model(r"^" + SP + r"(rows|columns)\(\) const$")
def sp_extent(w, st, i, m, a):
    return w.vread(st, a[0], 0 if m.group(2) == "rows" else 1)


@model(r"^" + SP + r"(priv_dims|dimensions|priv_row_start|priv_column|priv_data)\(\) const$")
def sp_member(w, st, i, m, a):
    return a[0] + {"priv_dims": 0, "dimensions": 0, "priv_row_start": 8, "priv_column": 16, "priv_data": 24}[m.group(2)]
