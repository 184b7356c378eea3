"""Call traces: what is passed to the functions a summary leaves as calls."""
from framework import *
from spec import *


def vecpart(lens, consts=None, unroll=8):
    """partition for functions taking index lists: lens {parameter position: length}, consts {parameter position: value}"""
    def preset(w, st):
        sig = Sig(w.fn)
        for k, r in lens.items():
            ad = sig.args[k].v
            es = 1 if "Booleans" in sig.args[k].ty else 8
            st.vecs[ad] = Vec(P.a("buf", ad), P.c(r), es)
            st.facts = st.facts.add(ceq(P.a("vsize", ad) - r))
            if es == 8:
                for j in range(r):
                    st.facts = st.facts.add(cge(P.a("ld", "i64", P.a("buf", ad) + 8 * j)))
        for k, v in (consts or {}).items():
            x = sig.args[k].v
            for a in w.fn["args"]:
                if st.env.get(a["id"]) == x:
                    st.env[a["id"]] = P.c(v)
    return dict(preset=preset, unroll=unroll, key=("vecpart", tuple(sorted(lens.items())), tuple(sorted((consts or {}).items()))))


def untrunc(x):
    """values kept in 32-bit cells: extents are assumed to fit"""
    if not isinstance(x, P):
        return x
    for _ in range(6):
        z = {i: untrunc(atom(i)[2]) for i in x.atoms() if atom(i)[0] == "trunc" and atom(i)[1] == 32}
        if not z:
            return x
        x = subst(x, z)
    return x


def cell(w, c, addr, n, sz=4, ty="i32"):
    """what the memory holds at addr when effect number n happens"""
    cs = CState(w, c)
    return untrunc(w.lookup(cs, addr, sz, ty, n))


def calls_at(c):
    """(position, effect) of the calls and summarised loops of a path"""
    return [(n, e) for n, e in enumerate(c.eff) if e[0] in ("call", "for")]


def bad_atoms(x, kinds=("unk", "kx", "phi", "mphi", "carried", "uninit", "ldv")):
    return isinstance(x, P) and any(atom(i)[0] in kinds for i in all_atoms(x))


def number(x, leaf):
    """value of x under the assignment atom id -> number, None when it has others"""
    v = subst(x, {i: P.c(q) for i, q in leaf.items()}).const()
    return v


def value(x, leaf):
    """the number a form has when its leaf atoms have the values given (None when others occur)"""
    if not isinstance(x, P):
        return x if isinstance(x, (int, float)) else None
    tot = 0
    for mono, c in x.t.items():
        t = c
        for i in mono:
            v = atom_value(i, leaf)
            if v is None:
                return None
            t = t * v
        tot = tot + t
    return int(tot) if getattr(tot, "denominator", 1) == 1 else tot


def atom_value(i, leaf):
    if i in leaf:
        return leaf[i]
    a = atom(i)
    if a[0] in ("div", "mod", "sdiv", "srem", "udiv", "urem") and len(a) == 3:
        n, d = value(a[1], leaf), value(a[2], leaf)
        if n is None or not d:
            return None
        q = abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1)
        return q if a[0].endswith("div") else n - q * d
    if a[0] in ("bitand", "bitor", "bitxor") and len(a) == 3:
        n, d = value(a[1], leaf), value(a[2], leaf)
        if not isinstance(n, int) or not isinstance(d, int):
            return None
        return n & d if a[0] == "bitand" else n | d if a[0] == "bitor" else n ^ d
    if a[0] in ("trunc", "zext", "sext"):
        return value(a[-1], leaf)
    return None


def truth(c, leaf):
    """truth of a condition under the values given, None when other atoms occur"""
    k = c[0]
    if k in ("T", "F"):
        return k == "T"
    if k in ("ge", "eq", "ne"):
        v = value(c[1], leaf)
        return None if v is None else v >= 0 if k == "ge" else (v == 0) == (k == "eq")
    if k in ("and", "or"):
        ts = [truth(x, leaf) for x in c[1:]]
        stop = k == "or"
        return stop if stop in ts else None if None in ts else not stop
    if k == "not":
        t = truth(c[1], leaf)
        return None if t is None else not t
    return None


def same_set(got, want, F, cells=(), conds=()):
    """multisets of tuples of forms: True, False (with an assignment of the cells that tells them apart) or None"""
    got, rest = list(got), []
    for x in want:
        k = next((i for i, y in enumerate(got) if len(x) == len(y) and all(same(a, b, F) is True for a, b in zip(x, y))), None)
        if k is None:
            rest.append(x)
        else:
            got.pop(k)
    if not got and not rest:
        return True, ""
    return None, "%s against %s" % ([tuple(show(a)[:60] for a in x) for x in got], [tuple(show(a)[:60] for a in x) for x in rest])


def told_apart(got, want, F, cells, ignore=None):
    """an assignment of extents under which the two multisets differ -> description or None; cells are forms of single atoms"""
    import itertools
    ids = [list(c.atoms())[0] for c in cells]
    for vals in ((2, 3, 5, 7, 11, 13), (3, 2, 7, 5, 11, 13), (4, 6, 3, 2, 5, 7), (1, 3, 2, 5, 4, 6), (5, 1, 3, 2, 4, 6), (2, 5, 1, 3, 4, 7)):
        leaf = dict(zip(ids, vals))
        z = {i: P.c(v) for i, v in leaf.items()}
        if any(F.decide(rebuild_cond(subst(c, z))) is False for c in F.conds):
            continue
        a, b = [], []
        try:
            for src, dst in ((got, a), (want, b)):
                for x in src:
                    t = tuple(subst(y, z).const() for y in x)
                    if any(y is None for y in t):
                        raise KeyError
                    if ignore is None or not ignore(t):
                        dst.append(t)
        except KeyError:
            continue
        if sorted(a) != sorted(b):
            return "for extents %s: %s, required are %s" % ("x".join(str(vals[k]) for k in range(len(ids))), fmt_tuples(a), fmt_tuples(b))
    return None


def fmt_tuples(xs):
    return " ".join("(%s)" % ",".join("%g" % float(y) for y in x) for x in sorted(xs))


class Nodes:
    """which value each object holds along a path: copies forward it, calls create terms"""

    def __init__(self, init):
        self.node = dict(init)

    def get(self, addr):
        return self.node.get(addr, ("?", addr))

    def step(self, e):
        if e[0] == "vcopy":
            self.node[e[4]] = self.get(e[5])
        elif e[0] in ("vnew", "map"):
            pass


def bool_of(F, vec, k):
    """truth of entry k of a boolean list on this path, None when it is not decided"""
    t = "[%s]" % show(P.a("buf", vec) + k)
    for c in F.conds:
        if c[0] in ("bool", "nbool") and t in show(c):
            return c[0] == "bool"
    return None
