"""Comparing function summaries against declarative specifications.

A result object is described by its extents and by an ordered list of *pieces*:
a loop nest over canonical coordinates, an (affine) element position and the value
stored there.  Both the summary of the source and the specification are brought to
the same canonical form (strides sorted, reversed loops flipped, contiguous nests
merged); two canonical forms that coincide are equal for every input.
"""
from poly import *
import poly
from walk import *
import walk
import models
import numer
from models import esize, vkey, total, origin

PROVED, REFUTED, UNK = "proved", "refuted", "unknown"

# atoms that stand for "the analysis lost track": never grounds for an alarm
LOST = {"unk", "phi", "undef", "ldv", "callr", "callp", "modv", "prev", "kx", "agg?", "zext", "sx", "zx", "bits", "fn?", "carried", "evt"}


def lost(x):
    for i in all_atoms(x):
        if atom(i)[0] in LOST:
            return True
    return False


def ld(addr, ty="double"):
    return P.a("ld", ty, addr)


# ------------------------------------------------------------------ signatures
class Arg:
    """one C++ parameter with the abstract values that carry it"""

    def __init__(self, ty, vals):
        self.ty, self.vals = ty, vals
        self.v = vals[0]

    def __repr__(self):
        return "<%s %s>" % (self.ty, show(tuple(self.vals)))


class Sig:
    def __init__(self, fn):
        d = fn["dem"]
        ps = split_params(d) or []
        vals, sret = [], None
        for n, a in enumerate(fn["args"]):
            v = P.a("argp", n) if a["ty"] == "ptr" else P.a("arg", n, a["ty"])
            if a["ty"] == "i1":
                v = ("bool", v)
            if a.get("sret"):
                sret = v
            else:
                vals.append(v)
        need = sum(2 if p.strip() == "std::complex<double>" else 1 for p in ps)
        self.this = None
        if len(vals) == need + 1:
            self.this = vals.pop(0)
        self.ok = len(vals) == need
        self.sret = sret
        self.args = []
        k = 0
        for p in ps:
            n = 2 if p.strip() == "std::complex<double>" else 1
            self.args.append(Arg(p.strip(), vals[k:k + n]))
            k += n


class Ten:
    """symbolic view of a tensor / vector argument in its initial state"""

    def __init__(self, addr, elty):
        self.addr, self.elty = addr, elty
        self.es = esize(elty)
        self.buf = P.a("buf", addr)
        self.size = P.a("vsize", addr)
        self.rank = P.a("vsize", addr + 8)
        self.cplx = self.es == 16

    def dim(self, k):
        return ld(P.a("buf", self.addr + 8) + 8 * k if isinstance(k, int) else P.a("buf", self.addr + 8) + k.scale(8), "i64")

    def el(self, ix, lane=0):
        ix = ix if isinstance(ix, P) else P.c(ix)
        ty = {8: "double", 16: "double", 1: "i8", 4: "i32"}[self.es]
        if self.elty in ("long", "unsigned long"):
            ty = "i64"
        return ld(self.buf + ix.scale(self.es) + 8 * lane, ty)

    def val(self, ix):
        return (self.el(ix), self.el(ix, 1)) if self.cplx else (self.el(ix), ZERO)


def tensor_arg(a):
    m = re.match(r"^tensor::(?:Tensor|Vector)<(.*?)>(?: const)?&?$", a.ty.replace("> >", ">>"))
    if m:
        t = m.group(1)
        if t.startswith("std::complex") and not t.endswith(">"):
            t += ">"
        return Ten(a.v, t)
    return None


# complex arithmetic on (re, im) pairs
def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def csub(a, b): return (a[0] - b[0], a[1] - b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cdiv(a, b):
    if not b[1].t:
        r = inv(b[0])
        return (a[0] * r, a[1] * r)
    n = inv(b[0] * b[0] + b[1] * b[1])
    p = cmul(a, (b[0], -b[1]))
    return (p[0] * n, p[1] * n)


def cconj(a): return (a[0], -a[1])
def cneg(a): return (-a[0], -a[1])


# ------------------------------------------------------------------ contents
class Piece:
    """alts: list of (conds tuple, value or None);  position = base + off over loops"""
    __slots__ = ("loops", "off", "alts", "loc", "size")

    def __init__(self, loops, off, alts, loc=None, size=8):
        self.loops, self.off, self.alts, self.loc, self.size = list(loops), off, alts, loc, size

    def __repr__(self):
        return "for %s: [%s] = %s" % (",".join("%s<%s" % (show_atom(atom(k)), show(T)) for k, T in self.loops), show(self.off),
                                      " | ".join("%s%s" % ("" if not c else show(list(c)) + "->", show(v)) for c, v in self.alts))


class Lost(Exception):
    pass


def flat(effs, base, loops=(), conds=(), out=None, fp=False):
    """write effects on `base`, loops flattened, as raw (loops, conds, off, size, val, loc)"""
    if out is None:
        out = []
    for e in effs:
        k = e[0]
        if k == "st":
            b, o = base_of(e[1])
            if b == base:
                v = e[3]
                if fp and len(e) > 5 and e[5] == "i64" and isinstance(v, P):
                    a = v.single()
                    if a and a[0] == "ld" and a[1] == "i64" and len(a) == 3:     # bitwise copy of a floating point word
                        v = ld(a[2])
                out.append((tuple(loops), tuple(conds), o, e[2], v, e[4]))
            elif b is None and base in e[1].atoms():
                raise Lost("indirect store")
        elif k == "for":
            for cs, ef in e[3]:
                flat(ef, base, tuple(loops) + ((e[1], e[2]),), tuple(conds) + tuple(cs), out, fp)
        elif k in ("cpy", "set"):
            b, o = base_of(e[1])
            if b == base:
                kk = fresh("iv", "b")
                kid = list(kk.atoms())[0]
                n8 = exact_div(e[3], 8)
                if n8 is None:
                    raise Lost("block size")
                if k == "cpy":
                    sb, so = base_of(e[2])
                    v = ("src", e[2])
                    out.append((tuple(loops) + ((kid, n8),), tuple(conds), o + kk.scale(8), 8, ("src", e[2] + kk.scale(8)), e[4]))
                else:
                    if e[2].const() != 0:
                        raise Lost("memset value")
                    out.append((tuple(loops) + ((kid, n8),), tuple(conds), o + kk.scale(8), 8, ZERO, e[4]))
        elif k == "havoc":
            if base in e[1]:
                raise Lost("havoc " + str(e[2])[:40])
    return out


class CState:
    """a finished case viewed as a state (for vkey / vread on the final heap)"""

    def __init__(self, w, c):
        self.w, self.c = w, c
        self.facts, self.eff, self.vecs = c.facts, c.eff, dict(c.vecs)
        self.env = {}

    def upto(self, n):
        s = CState(self.w, self.c)
        s.eff = self.eff[:n]
        s.vecs = self.vecs
        return s


def contents(cs, buf, size, es, elty="double", upto=None):
    """ordered pieces describing what `buf` holds"""
    eff = cs.eff if upto is None else cs.eff[:upto]
    if len(buf.t) != 1:
        raise Lost("buffer")
    base = list(buf.atoms())[0]
    start = 0
    pieces = []
    created = False
    for n in range(len(eff) - 1, -1, -1):
        e = eff[n]
        if e[0] == "vnew" and e[1] == buf:
            start, created = n + 1, True
            break
        if e[0] == "vcopy" and e[1] == buf:
            start, created = n + 1, True
            pieces = contents(cs, e[2], e[3], es, elty, n)
            break
        if e[0] == "map" and e[1] == buf:
            start, created = n + 1, True
            pieces = mapped(cs, e, n)
            break
    else:
        if atom(base)[0] == "buf" and len(atom(base)) == 2:
            kk = fresh("iv", "c")
            kid = list(kk.atoms())[0]
            for lane in range(max(1, es // 8)):
                a = buf + kk.scale(es) + 8 * lane
                ty = {8: "double", 16: "double", 1: "i8", 4: "i32"}[es]
                if elty in ("long", "unsigned long"):
                    ty = "i64"
                pieces.append(Piece([(kid, size)], kk.scale(es) + 8 * lane, [((), ld(a, ty))], None, min(es, 8)))
    if not created and not pieces and atom(base)[0] == "buf" and len(atom(base)) > 2 and isinstance(atom(base)[1], P) and (atom(base)[1].single() or (0,))[0] == "evt":
        raise Lost("the result of a call: " + show(atom(base)[1].single()[1])[:60])
    raw = flat(eff[start:], base, fp=elty in ("double", "std::complex<double>"))
    for loops, conds, off, sz, val, loc in raw:
        if isinstance(val, tuple) and val and val[0] == "src":
            # block copy: read the source as it was (only initial contents are resolved)
            b, o = base_of(val[1])
            if b is None:
                raise Lost("copy source")
            val = cs.w.lookup_at(cs.upto(start + _pos(eff[start:], loc)), val[1], 8, "double", start + _pos(eff[start:], loc))
        # join alternatives of the same cell
        if pieces and conds:
            p = pieces[-1]
            if p.off == off and p.loops == list(loops) and p.size == sz and p.alts[0][0]:
                p.alts.append((tuple(conds), val))
                continue
        pieces.append(Piece(loops, off, [(tuple(conds), val)], loc, sz))
    return pieces


def mapped(cs, e, n):
    """contents of an elementwise image"""
    _, buf, size, es, srcs, params, name, loc = e
    b0, e0 = srcs[0]
    ps = contents(cs, b0, size, e0, {8: "double", 16: "std::complex<double>"}[e0], n)
    out = []
    lane0 = [p for p in ps if p.off.t.get((), 0) % e0 == 0 or e0 == 8]
    lane1 = [p for p in ps if e0 == 16 and p.off.t.get((), 0) % e0 == 8]
    if len(lane0) + len(lane1) != len(ps) or e0 == 16 and len(lane0) != len(lane1):
        raise Lost("map source")
    for m, p in enumerate(lane0):
        q = None
        if e0 == 16:
            q = lane1[m]
            if q.loops != p.loops or q.off - 8 != p.off or len(q.alts) != len(p.alts) or any(x[0] != y[0] for x, y in zip(p.alts, q.alts)):
                raise Lost("map source lanes")
        pos = p.off.scale(Fraction(1, e0))
        if any(x.denominator != 1 for x in pos.t.values()):
            raise Lost("map position")
        others = []
        if len(srcs) > 1:
            st = cs.upto(n)
            for k, T in p.loops:
                st.facts = cs.w.with_nonneg(st.facts, k).add(cge(T - 1 - P({(k,): 1})))
            for b, s in srcs[1:]:
                others.append(tuple(cs.w.lookup(st, b + pos.scale(s) + 8 * j, 8, "double", n) for j in range(s // 8)))
        alts = [[] for _ in range(es // 8)]
        for z, (c, v) in enumerate(p.alts):
            lanes = (v,) if q is None else (v, q.alts[z][1])
            r = walk.MAPS(name, [lanes] + others, params)
            for j in range(es // 8):
                alts[j].append((c, r[j]))
        for j in range(es // 8):
            out.append(Piece(p.loops, pos.scale(es) + 8 * j, alts[j], loc, 8))
    return out


def _pos(eff, loc):
    for n, e in enumerate(eff):
        if e[0] in ("cpy", "set") and e[4] == loc:
            return n
    return len(eff)


# ------------------------------------------------------------------ canonical form
def red(F, x):
    if isinstance(x, P):
        return F.reduce(x)
    if isinstance(x, tuple):
        return tuple(red(F, y) for y in x)
    return x


class Canon:
    """loops sorted by stride, merged"""

    def __init__(self, piece, F, es, merge=True):
        self.ok = False
        loops = [(k, red(F, T)) for k, T in piece.loops]
        off = red(F, piece.off)
        alts = [(tuple(c), v) for c, v in piece.alts]
        # drop single-trip loops
        sub = {}
        keep = []
        for k, T in loops:
            T = subst(T, sub)
            if (T - 1).const() == 0:
                sub[k] = ZERO
            else:
                keep.append((k, T))
        if sub:
            off = subst(off, sub)
            alts = [(tuple(rebuild_cond(subst(x, sub)) for x in c), subst(v, sub) if v is not None else None) for c, v in alts]
        loops = keep
        kids = [k for k, T in loops]
        for k, T in loops:
            if set(kids) & all_atoms(T):
                self.why = "triangular loop"
                return
        self.lane = None
        strides = []
        for k, T in loops:
            s = coef(off, k)
            if s is None:
                self.why = "non-affine position"
                return
            if any(set(kids) & all_atoms(s) for _ in [0]):
                self.why = "non-affine stride"
                return
            if not s.t:
                # value must not depend on it (last iteration decides)
                if any(k in all_atoms(c) or (v is not None and k in all_atoms(v)) for c, v in alts):
                    alts = [(tuple(rebuild_cond(subst(x, {k: T - 1})) for x in c), subst(v, {k: T - 1}) if v is not None else None) for c, v in alts]
                continue
            strides.append([k, T, s])
        # reversed loops
        for z in strides:
            k, T, s = z
            neg = -s
            if not F.ge0(s) and F.ge0(neg):
                q = {k: T - 1 - P({(k,): 1})}
                off = subst(off, q)
                alts = [(tuple(rebuild_cond(subst(x, q)) for x in c), subst(v, q) if v is not None else None) for c, v in alts]
                z[2] = neg
        # order: fewest factors first, constants first
        strides.sort(key=lambda z: (len(max(z[2].t, key=len)) if z[2].t else 0, abs(z[2].const()) if z[2].const() is not None else 0, show(z[2])))
        base = off
        for k, T, s in strides:
            base = base - s * P({(k,): 1})
        self.base = base
        self.strides = strides
        self.alts = [(tuple(red(F, x) for x in c), red(F, v) if v is not None else None) for c, v in alts]
        self.F, self.es, self.piece = F, es, piece
        if merge:
            self.merge()
        self.ok = True

    def merge(self):
        ch = True
        while ch:
            ch = False
            for a in self.strides:
                for b in self.strides:
                    if a is b:
                        continue
                    if self.F.eq0(a[2] * a[1] - b[2]):
                        # K = a + Ta*b
                        ka, Ta, sa = a
                        kb, Tb, sb = b
                        K = fresh("iv", "m")
                        kid = list(K.atoms())[0]
                        q = {ka: K - Ta * P({(kb,): 1})}
                        alts = [(tuple(rebuild_cond(subst(x, q)) for x in c), subst(v, q) if v is not None else None) for c, v in self.alts]
                        alts = [(tuple(red(self.F, x) for x in c), red(self.F, v) if v is not None else None) for c, v in alts]
                        if any(kb in all_atoms(c) or (v is not None and kb in all_atoms(v)) for c, v in alts):
                            continue
                        self.alts = alts
                        self.strides = [z for z in self.strides if z is not a and z is not b]
                        self.strides.append([kid, red(self.F, Ta * Tb), sa])
                        ch = True
                        break
                if ch:
                    break

    def covers(self, size, lane):
        """all of base+es*[0,size)+8*lane"""
        need = P.c(self.es)
        rest = list(self.strides)
        if not self.F.eq0(self.base - 8 * lane):
            return False
        while rest:
            for z in rest:
                if self.F.eq0(z[2] - need):
                    need = red(self.F, need * z[1])
                    rest.remove(z)
                    break
            else:
                return False
        return self.F.eq0(need - size.scale(self.es))

    def empty(self):
        return any(not z[1].t or self.F.ge0(-z[1]) for z in self.strides)

    def align(self, other):
        """rename other's ivs to ours by stride+trip; None if impossible"""
        if len(self.strides) != len(other.strides):
            return None
        sub = {}
        used = set()
        for k, T, s in self.strides:
            for n, (k2, T2, s2) in enumerate(other.strides):
                if n in used:
                    continue
                if self.F.eq0(s - s2) and self.F.eq0(T - T2):
                    used.add(n)
                    sub[k2] = P({(k,): 1})
                    break
            else:
                return None
        if not self.F.eq0(self.base - other.base):
            return None
        return sub


# ------------------------------------------------------------------ conditions
_FSET = {"oeq": "=", "olt": "<", "ole": "<=", "one": "<>", "ord": "<=>", "une": "<>u", "uge": ">=u", "ugt": ">u", "ueq": "=u", "ult": "<u",
         "ule": "<=u", "uno": "u", "ogt": ">", "oge": ">="}


def fset(c):
    """('f',pred,a,b) -> (key, set over relation a?b) with canonical operand order"""
    s = set(_FSET[c[1]])
    a, b = c[2], c[3]
    if repr_key(b) < repr_key(a):
        a, b = b, a
        s = {{"<": ">", ">": "<"}.get(x, x) for x in s}
    return (a, b), s


def consistent(conds, F):
    """True: jointly satisfiable as far as the literals go; False: contradictory; None: cannot tell"""
    byf = {}
    G = F
    exotic = 0
    for c in conds:
        if c[0] == "T":
            continue
        if c[0] == "F":
            return False
        if c[0] == "and":
            return consistent(list(c[1:]) + [x for x in conds if x is not c], F)
        if c[0] == "or":
            rs = [consistent([x] + [y for y in conds if y is not c], F) for x in c[1:]]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c[0] == "f":
            k, s = fset(c)
            for o in F.others:
                if o[0] == "f":
                    k2, s2 = fset(o)
                    if k2 == k:
                        s = s & s2
            byf.setdefault(k, set("<=>u"))
            byf[k] &= s
            if not byf[k]:
                return False
            if k[0] == k[1] and not (byf[k] & set("=u")):
                return False
        else:
            d = G.decide(c)
            if d is False:
                return False
            if d is None:
                if cnot(c) in conds:
                    return False
                G = G.add(c)
                exotic += 1
    for k, s in byf.items():
        d = (k[0] - k[1]).const()
        if d is not None:
            rel = "=" if d == 0 else ("<" if d < 0 else ">")
            if rel not in s and "u" not in s:
                return False
    # integer literals: re-check each against the rest
    if exotic > 1:
        for c in conds:
            if c[0] in ("ge", "eq", "ne"):
                H = F
                for o in conds:
                    if o is not c and o[0] in ("ge", "eq", "ne"):
                        H = H.add(o)
                if H.decide(c) is False:
                    return False
    if exotic > 2:
        return None
    return True


def same(a, b, F):
    """decide a == b: True / False / None"""
    if a == b:
        return True
    d = red(F, a - b)
    if not d.t or F.eq0(d):
        return True
    if lost(d):
        return None
    if numer.special(d) and numer.agree(d) is True:
        return None
    return False


def expand(alts, depth=6):
    """split 0/1 indicator values into guarded constants"""
    out = []
    for c, v in alts:
        ind = None
        if v is not None and depth > 0 and len(v.t) <= 2:
            for i in v.atoms():
                if atom(i)[0] == "b2i":
                    ind = i
        if ind is None:
            out.append((c, v))
            continue
        k = atom(ind)[1]
        out += expand([(tuple(c) + (k,), subst(v, {ind: ONE})), (tuple(c) + (cnot(k),), subst(v, {ind: ZERO}))], depth - 1)
    return out


def compare_alts(impl, spec, F):
    """-> (verdict, detail)"""
    impl, spec = expand(impl), expand(spec)
    worst = PROVED
    for ci, vi in impl:
        for cs_, vs in spec:
            sat = consistent(list(ci) + list(cs_), F)
            if sat is False:
                continue
            G = F
            for c in list(ci) + list(cs_):
                if c[0] in ("eq",):
                    G = G.add(c)
            r = same(vi, vs, G)
            if r is True:
                continue
            if r is None or sat is None or any(lost(c) for c in ci):
                if worst == PROVED or worst[1].startswith("numerically equal"):
                    worst = (UNK, ("numerically equal: %s" if isinstance(vi, P) and isinstance(vs, P) and not lost(vi) and numer.agree(red(G, vi - vs)) is True else "value not resolved: %s") % show(vi)[:160])
                continue
            return REFUTED, "stores %s where %s is required%s" % (show(vi)[:300], show(vs)[:300], (" when " + show(list(ci))[:120]) if ci else "")
    if worst != PROVED:
        return worst
    return PROVED, ""


# ------------------------------------------------------------------ result comparison
class SPiece:
    """specification piece: coords = list of extents (fastest first), position = sum stride_k c_k (in elements);
    value(c...) -> tuple of lanes, or list of (conds, tuple)"""

    def __init__(self, extents, value, strides=None, start=ZERO):
        self.extents, self.value, self.strides, self.start = extents, value, strides, start


def spec_pieces(sp, es):
    ks = [fresh("iv", "s") for _ in sp.extents]
    strides = sp.strides
    if strides is None:
        strides, acc = [], ONE
        for e in sp.extents:
            strides.append(acc)
            acc = acc * e
    off = sp.start.scale(es)
    for k, s in zip(ks, strides):
        off = off + k * s.scale(es)
    loops = [(list(k.atoms())[0], e) for k, e in zip(ks, sp.extents)]
    v = sp.value(*ks)
    if not isinstance(v, list):
        v = [((), v)]
    out = []
    nl = max(1, es // 8)
    for lane in range(nl):
        out.append(Piece(loops, off + 8 * lane, [(tuple(c), x[lane] if isinstance(x, tuple) else x) for c, x in v], None, min(8, es)))
    return out


def compare_contents(pieces, specs, size, es, F):
    """-> (verdict, detail, loc)"""
    size = red(F, size)
    sps = []
    for s in specs:
        sps += spec_pieces(s, es)
    nl = max(1, es // 8)
    unk = None
    for lane in range(nl):
        def lane_of(p):
            c = p.off.t.get((), 0)
            r = c % es
            for m, k in p.off.t.items():
                if m and (k.denominator != 1 or k % es != 0):
                    return None
            return int(r) // 8
        ip, sp = [], []
        bad = None
        for p in pieces:
            l = lane_of(p)
            if es < 8:
                l = 0
            if l is None:
                # block copies of complex data: split into lanes
                q = split_lanes(p, es, lane)
                if q is None:
                    bad = p
                    break
                ip.append(q)
            elif l == lane:
                if p.size != min(es, 8):
                    bad = p
                    break
                ip.append(p)
        if bad is not None:
            unk = ("position not resolved: %r" % (bad,), bad.loc)
            continue
        for p in sps:
            if es < 8 or lane_of(p) == lane:
                sp.append(p)
        ic, sc = [], []
        fail = None
        for p in ip:
            c = Canon(p, F, es)
            if not c.ok:
                fail = (c.why, p.loc)
                break
            if not c.empty():
                ic.append(c)
        if fail:
            unk = fail
            continue
        for p in sp:
            c = Canon(p, F, es)
            if not c.ok:
                raise Exception("bad specification: " + c.why)
            if not c.empty():
                sc.append(c)
        if not size.t or F.ge0(-size):
            continue

        def trim(cl):
            for n in range(len(cl) - 1, -1, -1):
                if cl[n].covers(size, lane) and complete(cl[n].alts, F):
                    return cl[n:]
            return cl
        ic, sc = trim(ic), trim(sc)
        ic = overlay(ic, F)
        # cells written twice in place collapse to the last one
        if len(ic) != len(sc):
            if not ic and sc:
                return REFUTED, "no element of the result is written (lane %d)" % lane, None
            # merge adjacent impl pieces that belong to one spec piece is not attempted
            v = pointwise(ic, sc, size, lane, es, F)
            if v[0] == REFUTED:
                return v
            if v[0] == UNK:
                unk = (v[1], v[2])
            continue
        if all(not c.strides and c.base.const() is not None for c in ic) and len({c.base.const() for c in ic}) == len(ic):
            # single cells, each written once: the order says nothing
            if all(not c.strides and c.base.const() is not None for c in sc):
                ic, sc = (sorted(x, key=lambda c: c.base.const()) for x in (ic, sc))
        for a, b in zip(ic, sc):
            sub = a.align(b)
            if sub is None:
                v = pointwise(ic, sc, size, lane, es, F)
                if v[0] == REFUTED:
                    return v
                if v[0] == UNK:
                    unk = (v[1], v[2])
                break
            alts = [(tuple(rebuild_cond(subst(x, sub)) for x in c), subst(v, sub)) for c, v in b.alts]
            r, d = compare_alts(a.alts, alts, F)
            if r == REFUTED:
                return REFUTED, "lane %d: %s" % (lane, d) if nl > 1 else d, a.piece.loc
            if r == UNK:
                unk = (d, a.piece.loc)
    if unk:
        return UNK, unk[0], unk[1]
    return PROVED, "", None


def split_lanes(p, es, lane):
    """a piece of stride 8 over complex data -> its lane"""
    if es != 16:
        return None
    for k, T in p.loops:
        s = coef(p.off, k)
        if s is not None and s.const() == 8:
            h = T.scale(Fraction(1, 2))
            if any(c.denominator != 1 for c in h.t.values()):
                return None
            q = {k: P({(k,): 2}) + lane}
            loops = [(kk, h if kk == k else TT) for kk, TT in p.loops]
            off = subst(p.off, q)
            return Piece(loops, off, [(c, subst(v, q)) for c, v in p.alts], p.loc, p.size)
    return None


def complete(alts, F):
    """do the alternatives cover every situation?"""
    if len(alts) == 1 and not alts[0][0]:
        return True
    return F.decide(cor([cand(list(c)) for c, v in alts])) is True or taut([cand(list(c)) for c, v in alts])


def taut(cs):
    """syntactic completeness: split on a literal and recurse"""
    if any(c[0] == "T" for c in cs):
        return True
    lits = []
    for c in cs:
        for x in (c[1:] if c[0] == "and" else (c,)):
            lits.append(x)
    if not lits:
        return False
    l = lits[0]
    for v in (l, cnot(l)):
        nxt = []
        for c in cs:
            parts = list(c[1:]) if c[0] == "and" else [c]
            if cnot(v) in parts:
                continue
            parts = [x for x in parts if x != v]
            nxt.append(cand(parts))
        if not nxt:
            return False
        if len(nxt) == len(cs) and nxt == cs:
            return False
        if not taut(nxt):
            return False
    return True


def overlay(cl, F):
    """a full cover followed by guarded writes over the same cells -> one piece with alternatives"""
    out = []
    for c in cl:
        if out:
            sub = c.align(out[-1])
            if sub is not None:
                under = [(tuple(rebuild_cond(subst(x, sub)) for x in cc), subst(v, sub)) for cc, v in out[-1].alts]
                if complete(c.alts, F):
                    out[-1] = c
                    continue
                miss = cnot(cor([cand(list(cc)) for cc, v in c.alts]))
                c.alts = list(c.alts) + [(tuple(cc) + (miss,), v) for cc, v in under]
                out[-1] = c
                continue
        out.append(c)
    return out


def pointwise(ic, sc, size, lane, es, F):
    """shapes differ: only definite disagreements of the write maps are reported"""
    if len(sc) == 1 and len(ic) == 1 and len(sc[0].strides) > 1 and len(ic[0].strides) == 1 and sc[0].covers(size, lane) and ic[0].covers(size, lane):
        # one flat loop over the whole result against a nest of loops: the flat counter in terms of the nest's
        k = ic[0].strides[0][0]
        F2 = F
        pos = ZERO
        for kk, T, stp in sc[0].strides:
            kp = P({(kk,): 1})
            F2 = F2.add(cge(kp)).add(cge(T - 1 - kp))
            pos = pos + kp * stp
        pos = poly_div(pos, P.c(es))
        if pos is not None:
            alts = [(tuple(rebuild_cond(subst(x, {k: pos})) for x in c), walk.simp_divmod(subst(v, {k: pos}), F2)) for c, v in ic[0].alts]
            r, d = compare_alts(alts, sc[0].alts, F2)
            return r, d, ic[0].piece.loc
    if len(sc) == 1 and sc[0].covers(size, lane):
        # 1. every implementation write must agree with the spec at its own position (spec must be linear-indexable)
        s = sc[0]
        if len(s.strides) == 1:
            k = s.strides[0][0]
            worst = None
            for a in ic:
                pos = a.piece.off
                q = None
                idx = a.base - 8 * lane
                for kk, T, st in a.strides:
                    idx = idx + st * P({(kk,): 1})
                e = poly_div(idx, P.c(es)) if idx.t else ZERO
                if e is None:
                    worst = (UNK, "position not a multiple of the element size", a.piece.loc)
                    continue
                alts = [(tuple(rebuild_cond(subst(x, {k: e})) for x in c), subst(v, {k: e})) for c, v in s.alts]
                r, d = compare_alts(a.alts, alts, F)
                if r == REFUTED and len(ic) == 1:
                    return REFUTED, d, a.piece.loc
                if r != PROVED:
                    worst = (UNK, d, a.piece.loc)
            if len(ic) == 1 and not ic[0].covers(size, lane):
                a = ic[0]
                n = ONE
                for kk, T, st in a.strides:
                    n = n * T
                d = red(F, n - size)
                if d.t and not lost(d) and not lost(a.base) and complete(a.alts, F):
                    return REFUTED, "writes %s elements at offset %s where %s elements are required" % (show(n), show(a.base), show(size)), a.piece.loc
                return UNK, "coverage not established", a.piece.loc
            if worst:
                return worst
            return UNK, "coverage not established", ic[0].piece.loc if ic else None
    if len(ic) == len(sc):
        for a, b in zip(ic, sc):
            if a.align(b) is None:
                for x in a.strides:
                    if lost(x[1]) or lost(x[2]):
                        return UNK, "loop bounds not resolved", a.piece.loc
                if lost(a.base):
                    return UNK, "position not resolved", a.piece.loc
                if len(a.strides) == len(b.strides):
                    return REFUTED, "write map %s does not cover the result as %s" % (
                        "+".join("%s*[0,%s)" % (show(x[2]), show(x[1])) for x in a.strides) + " at " + show(a.base),
                        "+".join("%s*[0,%s)" % (show(x[2]), show(x[1])) for x in b.strides) + " at " + show(b.base)), a.piece.loc
                return UNK, "loop structure differs from the specification", a.piece.loc
    return UNK, "piece structure differs (%d writes, %d specified)" % (len(ic), len(sc)), ic[0].piece.loc if ic else None


# ------------------------------------------------------------------ representation facts
def rep_facts(F, tens):
    """size == product of extents for tensor arguments (checked by the shape property)"""
    for t in tens:
        F = F.add(ceq(P.a("total", ("vec", P.a("buf", t.addr + 8))) - t.size))
    return F


def known_rank(F, t):
    r = F.reduce(t.rank).const()
    return None if r is None else int(r)


def rank_facts(F, tens):
    F = rep_facts(F, tens)
    for t in tens:
        r = known_rank(F, t)
        if r is not None and 0 < r <= 8:
            p = ONE
            for k in range(r):
                p = p * t.dim(k)
            F = F.add(ceq(p - t.size))
    return F


# ------------------------------------------------------------------ whole-result checks
def facts_with_dims(F, tens):
    """add the consequences of a successful extents comparison"""
    F = rank_facts(F, tens)
    by = {P.a("buf", t.addr + 8): t for t in tens}
    for c in list(F.conds):
        if c[0] == "bool":
            a = c[1].single()
            if a and a[0] == "dimseq":
                ts = []
                for k in a[1:]:
                    if k[0] == "vec" and k[1] in by:
                        ts.append(by[k[1]])
                if len(ts) == 2:
                    F = F.add(ceq(ts[0].size - ts[1].size)).add(ceq(ts[0].rank - ts[1].rank))
                    r = known_rank(F, ts[0])
                    if r is not None:
                        for k in range(r):
                            F = F.add(ceq(ts[0].dim(k) - ts[1].dim(k)))
    return F


class Dims:
    """extents given as pieces over positions [0,n)"""

    def __init__(self, n, pieces):
        self.n, self.pieces = n, pieces


def dims_verdict(cs, addr, want, F):
    """want: Ten (same extents as) | list of P | Dims"""
    if isinstance(want, Dims):
        v = cs.w.vec(cs, addr + 8)
        s = same(v.size, want.n, F)
        if s is False:
            return REFUTED, "result has rank %s, not %s" % (show(red(F, v.size)), show(red(F, want.n)))
        if s is None:
            return UNK, "rank not resolved: " + show(v.size)[:100]
        try:
            ps = contents(cs, v.buf, v.size, 8, "long")
        except (Lost, Unknown) as e:
            return UNK, "extents: %s" % e
        r, d, _ = compare_contents(ps, want.pieces, want.n, 8, F)
        return r, ("extents: " + d if d else "")
    try:
        key = vkey(cs.w, cs, addr + 8)
    except Unknown as e:
        return UNK, str(e)
    if isinstance(want, Ten):
        if key == ("vec", P.a("buf", want.addr + 8)):
            return PROVED, ""
        r = known_rank(F, want)
        if r is None:
            if key[0] == "vec":
                if lost(key[1]):
                    return UNK, "extents not resolved"
                # extents of another argument known to be equal
                x, y = sorted((key, ("vec", P.a("buf", want.addr + 8))), key=repr)
                if ("bool", P.a("dimseq", x, y)) in F.conds:
                    return PROVED, ""
                a = key[1].single()
                if a and a[0] == "buf" and len(a) == 2:
                    return REFUTED, "extents are those of %s, not of %s" % (show(key[1]), show(want.addr + 8))
                return UNK, "extents " + show(key)[:120]
            # constant rank against unknown rank
            if known_rank(F, want) is None and all(not lost(x) for x in key[1:]):
                return REFUTED, "rank-%d result for an operand of arbitrary rank" % (len(key) - 1)
            return UNK, "rank"
        want = [want.dim(k) for k in range(r)]
    if key[0] == "vec":
        n = cs.w.vec(cs, addr + 8).size
        if F.eq0(n - len(want)):
            got = [cs.w.vread(cs, addr + 8, k) for k in range(len(want))]
        else:
            d = red(F, n - len(want)).const()
            if d is not None and d != 0:
                return REFUTED, "result has rank %s, not %d" % (show(red(F, n)), len(want))
            return UNK, "rank not resolved: " + show(n)[:100]
    else:
        got = list(key[1:])
        if len(got) != len(want):
            return REFUTED, "result has rank %d, not %d" % (len(got), len(want))
    bad = None
    for k, (g, x) in enumerate(zip(got, want)):
        r = same(g, x, F)
        if r is False:
            return REFUTED, "extent %d is %s, not %s" % (k, show(red(F, g))[:160], show(red(F, x))[:160])
        if r is None:
            bad = "extent %d not resolved: %s" % (k, show(g)[:100])
    return (UNK, bad) if bad else (PROVED, "")


def result_verdict(w, c, addr, elty, dims, size, pieces, F):
    """compare the tensor living at addr when the case ends"""
    cs = CState(w, c)
    out = []
    if dims is not None:
        v, d = dims_verdict(cs, addr, dims, F)
        out.append(("extents", v, d, c.loc))
    es = esize(elty)
    vec = w.vec(cs, addr, es)
    s = same(vec.size, size, F)
    if s is False:
        out.append(("size", REFUTED, "holds %s elements, not %s" % (show(red(F, vec.size)), show(red(F, size))), c.loc))
    elif s is None:
        out.append(("size", UNK, "size not resolved: %s" % show(vec.size)[:100], c.loc))
    try:
        ps = contents(cs, vec.buf, vec.size, es, elty)
        v, d, l = compare_contents(ps, pieces, size, es, F)
        out.append(("elements", v, d, l or c.loc))
    except (Lost, Unknown) as e:
        out.append(("elements", UNK, "contents: %s" % e, c.loc))
    return out


def worst(vs):
    for x in vs:
        if x[0] == "instance" and x[1] == REFUTED:
            return x
    for v in (REFUTED, UNK):
        for x in vs:
            if x[1] == v:
                return x
    return ("", PROVED, "", None)


def check_tensor_result(ctx, fn, rule, specf, elty, obj=None, models=None, tens=None, only=("ret",), key=None, part=None, none_ok=False):
    """specf(case, F) -> dict(dims=, size=, pieces=) or None (case outside the specification)"""
    w, cases, err = ctx.summary(fn, models, **(part or dict(key=key)))
    if cases is None:
        ctx.unk(fn, rule, err)
        return None
    tens = tens if tens is not None else [t for t in map(tensor_arg, fn.sig.args) if t]
    obj = obj if obj is not None else fn.sig.sret
    n = 0
    res = []
    for c in cases:
        if c.outcome not in only:
            continue
        n += 1
        F = facts_with_dims(c.facts, tens)
        if infeasible(F):
            continue
        try:
            sp = specf(c, F)
        except Unknown as e:
            res.append(("spec", UNK, str(e), c.loc))
            continue
        if sp is None:
            continue
        if isinstance(sp, tuple):       # ready-made verdict
            res.append(sp)
            continue
        for q in (sp if isinstance(sp, list) else [sp]):      # a list: one specification per sub-partition
            G = q.get("facts", F)
            if isinstance(sp, list) and infeasible(G):
                continue
            vs = result_verdict(w, c, obj, elty, q.get("dims"), q["size"], q["pieces"], G)
            if any(v[1] != PROVED for v in vs):
                parts = disjuncts(G)
                if parts:
                    alt = [v for H in parts for v in result_verdict(w, c, obj, elty, q.get("dims"), q["size"], q["pieces"], H)]
                    if all(v[1] == PROVED for v in alt):
                        vs = alt
            res += arbitrate(ctx, w, c, obj, elty, tens, q, vs)
    if not n:
        if none_ok:
            ctx.ok(fn, rule, "every path aborts")
        else:
            ctx.bad(fn, rule, "the function never returns normally: every path aborts")
        return None
    x = worst(res)
    ctx.verdict(fn, rule, x[1], ("%s: %s" % (x[0], x[2])) if x[1] != PROVED else "%d cases" % n, x[3])
    return x[1]


def arbitrate(ctx, w, c, obj, elty, tens, sp, vs):
    """instances of the closed forms settle what the normal forms leave open, and confirm what they reject"""
    if all(v[1] == PROVED for v in vs):
        return vs
    import witness
    ctx.stats["instantiated_cases"] = ctx.stats.get("instantiated_cases", 0) + 1
    agree, diff = witness.result(c, CState(w, c), obj, elty, tens, sp, sp.get("facts", c.facts), conds=list(c.facts.conds) + [x for x in sp["facts"].conds if x not in c.facts.conds] if "facts" in sp else None, ints=sp.get("ints"), extra=sp.get("extra"))
    if diff:
        x = worst(vs)
        return vs + [("instance", REFUTED, diff, x[3] or c.loc)]
    if agree:
        return [(k, UNK if v == REFUTED else v, "agrees on %d instances; %s" % (agree, d) if v != PROVED else d, l) for k, v, d, l in vs]
    return vs


def disjuncts(F, limit=8):
    """the case distinction over the disjunctions among the facts, infeasible cases left out"""
    ors = [x for x in F.conds if x[0] == "or" and all(F.decide(d) is not True for d in x[1:])]
    parts = [F]
    for o in ors:
        parts = [H for G in parts for d in o[1:] if G.decide(d) is not False for H in [G.add(d)] if not infeasible(H)]
        if len(parts) > limit:
            return None
    return parts if ors else None


def infeasible(F):
    for c in F.conds:
        if c[0] in ("ge",) and F.ge0(-c[1] - 1):
            return True
        if c[0] == "ne" and F.eq0(c[1]):
            return True
    return False


def eqdims(F, a, b):
    """True when the path facts imply that two tensor arguments have the same extents"""
    if a.addr == b.addr:
        return True
    x, y = sorted((("vec", P.a("buf", a.addr + 8)), ("vec", P.a("buf", b.addr + 8))), key=repr)
    if ("bool", P.a("dimseq", x, y)) in F.conds:
        return True
    F = facts_with_dims(F, [a, b])
    r = known_rank(F, a)
    return r is not None and known_rank(F, b) == r and all(F.eq0(a.dim(k) - b.dim(k)) for k in range(r))
