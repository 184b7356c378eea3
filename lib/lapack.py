"""Calls of LAPACK: their arguments as symbolic forms, the conditions the routines document, and what they leave behind."""
from calls import *
from props import *
from walk import LAPACK, subst, subst_eff, rebuild_cond
from models import exact_div

SIZE = {"i1": 1, "i8": 1, "i32": 4, "i64": 8, "double": 8, "ptr": 8}


def fuller(F):
    """the same facts without the truncation of extents to 32 bits"""
    G = F
    for c in F.conds:
        d = strip(c)
        if d != c:
            G = G.add(d)
    return G


def strip(c):
    if isinstance(c, tuple) and c and c[0] in ("and", "or"):
        return (c[0],) + tuple(strip(x) for x in c[1:])
    if isinstance(c, tuple) and len(c) == 2 and c[0] in ("ge", "eq", "ne"):
        return rebuild_cond((c[0], untrunc(c[1])))
    return c


def tysize(t):
    m = re.match(r"^\[(\d+) x (.*)\]$", t)
    if m:
        s = tysize(m.group(2))
        return s and int(m.group(1)) * s
    if t.startswith("%") and "complex" in t:
        return 16
    m = re.match(r"^\{ (.*) \}$", t)
    if m:
        s = [tysize(x) for x in m.group(1).split(", ")]
        return None if None in s else sum(s)
    return SIZE.get(t)


class Call:
    """one call of a LAPACK routine on a path"""

    def __init__(self, w, c, n, e):
        self.w, self.c, self.n, self.name, self.a, self.loc, self.rid = w, c, n, e[1], e[2], e[3], e[5]
        self.names, self.out = LAPACK[e[1]]
        self.cs = CState(w, c).upto(n)
        self.query = "LWORK" in self.names and self.int("LWORK").const() == -1

    def has(self, x):
        return x in self.names

    def arg(self, x):
        return self.a[self.names[x]]

    def int(self, x):
        return cell(self.w, self.c, self.arg(x), self.n)

    def letter(self, x):
        v = self.w.lookup(CState(self.w, self.c), self.arg(x), 1, "i8", self.n)
        g = v.single() if isinstance(v, P) else None
        if g and g[0] == "ld" and g[1] == "i8":
            # a constant of the program
            b, o = base_of(g[2])
            e = self.w.unit.globals.get(atom(b)[1]) if b is not None and atom(b)[0] == "g" else None
            t = e[4][1] if e and len(e) > 4 and e[4][0] == "str" else None
            o = o.const()
            return t[int(o)].upper() if t and o is not None and 0 <= o < len(t) else None
        v = v.const() if isinstance(v, P) else None
        return chr(int(v)).upper() if v is not None and 0 < v < 128 else None

    def wrote(self, x, k, ty="double", es=8):
        """element k of array argument x after the call"""
        k = k if isinstance(k, P) else P.c(k)
        return ld(self.left(x) + k.scale(es), ty)

    def left(self, x):
        """the array argument x as the call leaves it"""
        return P.a("buf", P.a("lapack", self.n, x))

    def info(self):
        return P.a("ldv", "i32", self.arg("INFO"), self.rid)

    def capacity(self, x):
        """bytes from the argument to the end of the object it points into"""
        return capacity(self.w, self.c, self.arg(x), self.n)


def capacity(w, c, ptr, n):
    b, off = base_of(ptr)
    if b is None:
        raise Unknown("a pointer of unknown origin")
    a, me = atom(b), P({(b,): 1})
    if a[0] == "alloca":
        for blk in w.fn["blocks"]:
            for i in blk["ins"]:
                if i["op"] == "alloca" and P.a("alloca", i["id"]) == me:
                    s = tysize(i["aty"])
                    k = i["ops"][0]
                    if s is None or k[0] != "ci":
                        raise Unknown("size of " + i["aty"])
                    return P.c(s * k[1]) - off
        raise Unknown("alloca")
    for e in reversed(c.eff[:n]):
        if e[0] in ("vnew", "vcopy", "map", "alloc") and e[1] == me:
            if e[0] == "vnew":
                return untrunc(e[2]).scale(e[4]) - off
            if e[0] == "vcopy":
                return untrunc(e[3]).scale(e[6]) - off
            if e[0] == "map":
                return untrunc(e[2]).scale(e[3]) - off
            return untrunc(e[2]) - off
    if a[0] == "buf" and len(a) == 2:
        for x in Sig(w.fn).args:
            t = tensor_arg(x)
            if t is not None and t.addr == a[1]:
                return t.size.scale(t.es) - off
    raise Unknown("the size of " + show(ptr)[:60])


def lapack_calls(w, c):
    for n, e in enumerate(c.eff):
        if e[0] == "call" and isinstance(e[1], str) and e[1] in LAPACK:
            yield Call(w, c, n, e)


def mn(F, m, n):
    """(smaller, larger) of two extents on this path, None when it is open"""
    if F.ge0(n - m):
        return m, n
    if F.ge0(m - n):
        return n, m
    return None


def needs(k, F):
    """[(what, form that has to be >= 0)] of the documented conditions of a call"""
    z = 16 if k.name[0] == "z" else 8
    r = k.name[1:-1]
    out = []
    i = k.int

    def lead(x, rows):
        out.append(("the leading dimension %s" % x, i(x) - rows))
        out.append(("the leading dimension %s" % x, i(x) - 1))

    def room(x, bytes_):
        out.append(("the room behind %s" % x, k.capacity(x) - bytes_))
    N = i("N")
    out.append(("N", N))
    if r == "gesv":
        lead("LDA", N)
        lead("LDB", N)
        room("A", (i("LDA") * N).scale(z))
        room("IPIV", N.scale(4))
        room("B", (i("LDB") * i("NRHS")).scale(z))
        least, rw = None, None
    elif r == "gesvd":
        M = i("M")
        out.append(("M", M))
        x = mn(F, M, N)
        if x is None:
            raise Unknown("the smaller of the extents")
        small, big = x
        lead("LDA", M)
        room("A", (i("LDA") * N).scale(z))
        room("S", small.scale(8))
        for job, arr, ldx, rows, cols in (("JOBU", "U", "LDU", M, {"A": M, "S": small}), ("JOBVT", "VT", "LDVT", {"A": N, "S": small}, N)):
            l = k.letter(job)
            if l is None or l == "O":
                raise Unknown(job)
            out.append(("the leading dimension %s" % ldx, i(ldx) - 1))
            if l in "AS":
                ro = rows[l] if isinstance(rows, dict) else rows
                co = cols[l] if isinstance(cols, dict) else cols
                lead(ldx, ro)
                room(arr, (i(ldx) * co).scale(z))
        least = [small.scale(3) + big, small.scale(5)] if z == 8 else [small.scale(2) + big]
        rw = small.scale(5)
    elif r == "geev":
        lead("LDA", N)
        room("A", (i("LDA") * N).scale(z))
        if k.has("W"):
            room("W", N.scale(16))
        else:
            room("WR", N.scale(8))
            room("WI", N.scale(8))
        vec = False
        for job, arr in (("JOBVL", "VL"), ("JOBVR", "VR")):
            l = k.letter(job)
            if l not in ("N", "V"):
                raise Unknown(job)
            out.append(("the leading dimension LD%s" % arr, i("LD" + arr) - 1))
            if l == "V":
                vec = True
                lead("LD" + arr, N)
                room(arr, (i("LD" + arr) * N).scale(z))
        least = [N.scale(4 if vec else 3)] if z == 8 else [N.scale(2)]
        rw = N.scale(2)
    else:
        if k.letter("JOBZ") not in ("N", "V") or k.letter("UPLO") not in ("U", "L"):
            raise Unknown("JOBZ, UPLO")
        lead("LDA", N)
        room("A", (i("LDA") * N).scale(z))
        room("W", N.scale(8))
        least = [N.scale(3) - 1] if z == 8 else [N.scale(2) - 1]
        rw = N.scale(3) - 2
    if k.has("INFO"):
        room("INFO", P.c(4))
    if k.query:
        # nothing but the size of the workspace is written
        out = [(a, b) for a, b in out if not a.startswith("the room behind") or a.endswith("INFO")]
        room("WORK", P.c(z))
        return out
    if k.has("RWORK"):
        room("RWORK", rw.scale(8))
        out.append(("the room behind RWORK", k.capacity("RWORK") - 8))
    if least is not None:
        l = i("LWORK")
        room("WORK", l.scale(z))
        if not answer(k, l):
            for x in least:
                out.append(("LWORK", l - x))
            out.append(("LWORK", l - 1))
    return out


def answer(k, l):
    """the length is the one a query of the same routine, with the same jobs and extents, asked for"""
    s = l.single() if isinstance(l, P) else None
    while s and s[0] in ("trunc", "sext", "zext") and isinstance(s[-1], P):
        s = s[-1].single()
    if not s or s[0] != "fn" or not s[1].startswith("fpto"):
        return False
    s = s[-1].single() if isinstance(s[-1], P) else None
    if not s or s[0] != "ldv":
        return False
    for q in lapack_calls(k.w, k.c):
        if q.query and q.rid == s[3] and q.name == k.name and q.arg("WORK") == s[2]:
            same_jobs = all(q.letter(x) == k.letter(x) and k.letter(x) for x in k.names if x.startswith("JOB") or x == "UPLO")
            same_ext = all(q.int(x) == k.int(x) for x in k.names if x in ("M", "N"))
            return same_jobs and same_ext
    return False


class Left:
    """a case in which what the routines leave in their output arrays is memory of its own, named after call and argument"""

    def __init__(self, w, c):
        self.outcome, self.vecs, self.loc, self.ret = c.outcome, c.vecs, c.loc, c.ret
        self.calls = list(lapack_calls(w, c))
        main = {}
        for k in self.calls:
            if not k.query:
                main[k.rid] = k
        m = {}
        for i in deep_atoms([c.eff, list(c.facts.conds), c.ret]):
            a = atom(i)
            if a[0] == "ldv" and a[3] in main:
                k = main[a[3]]
                b, off = base_of(a[2])
                hit = [x for x in k.out if b is not None and base_of(k.arg(x))[0] == b]
                if len(hit) == 1 and hit[0] not in ("INFO", "WORK", "RWORK", "IPIV"):
                    m[i] = ld(k.left(hit[0]) + (a[2] - k.arg(hit[0])), a[1])
        self.m = m
        self.facts = Facts()
        for x in c.facts.conds:
            self.facts = self.facts.add(rebuild_cond(subst(x, m)) if m else x)
        eff = [put(e, m) for e in c.eff] if m else list(c.eff)
        for k in self.calls:
            n = k.n + 1
            if k.query or n >= len(eff) or eff[n][0] != "havoc":
                continue
            body, gone = [], set()
            for x in k.out:
                if x in ("INFO", "WORK", "RWORK", "IPIV"):
                    continue
                es = 16 if k.name[0] == "z" and x != "S" and not (x == "W" and k.name == "zheev_") else 8
                try:
                    size = exact_div(k.capacity(x), es)
                except Unknown:
                    continue
                if size is None:
                    continue
                i = fresh("iv", "w")
                st = [("st", k.arg(x) + i.scale(es) + j, 8, ld(k.left(x) + i.scale(es) + j), k.loc, "double") for j in range(0, es, 8)]
                body.append(("for", list(i.atoms())[0], size, [((), st)], {"uid": 0, "loc": k.loc, "nlatch": 1}))
                gone |= set(k.arg(x).atoms())
            rest = frozenset(eff[n][1]) - gone
            if rest:
                body.append(("havoc", rest, eff[n][2]))
            # one effect for another: positions stay as they are
            eff[n] = ("for", list(fresh("iv", "w").atoms())[0], ONE, [((), body)], {"uid": 0, "loc": k.loc, "nlatch": 1})
        self.eff = eff
        for k in self.calls:
            k.c = self
            k.cs = CState(w, self).upto(k.n)


def put(e, m):
    e = subst_eff(e, m)
    if e[0] == "for" and e[4].get("rec"):
        rec = dict(e[4]["rec"])
        rec["latches"] = [(tuple(rebuild_cond(subst(x, m)) for x in cs), {p: subst(v, m) if isinstance(v, (P, tuple)) else v for p, v in nx.items()}, [subst_eff(x, m) for x in ef])
                          for cs, nx, ef in rec["latches"]]
        e = e[:4] + (dict(e[4], rec=rec),)
    return e


def deep_atoms(x, out=None):
    out = set() if out is None else out
    if isinstance(x, P):
        out |= set(all_atoms(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            deep_atoms(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            deep_atoms(y, out)
    return out


def settled(F, goal, tens):
    """is the goal implied on this path?  Refuted by extents for which every condition on extents holds and the goal does not;
    conditions on data, flags and results of the routines can hold for any extents.  tens: (tensor, rank)"""
    import itertools
    d = F.decide(goal)
    if d is True:
        return PROVED, ""
    if d is not False and bad_atoms(goal[1], ("unk", "phi", "mphi", "carried")):
        return UNK, show(goal)[:120]
    dims = [t.dim(k) for t, r in tens for k in range(r)]
    ids = [list(x.atoms())[0] for x in dims]
    for vals in itertools.product((3, 2, 4, 1, 7, 30), repeat=len(dims)):
        leaf = dict(zip(ids, vals))
        p = 0
        for t, r in tens:
            n = 1
            for v in vals[p:p + r]:
                n *= v
            p += r
            leaf[list(t.size.atoms())[0]] = n
            leaf[list(t.rank.atoms())[0]] = r
        z = {i: P.c(v) for i, v in leaf.items()}
        ok = True
        for c in F.conds:
            q = truth(rebuild_cond(subst(c, z)), leaf)
            if q is False:
                ok = False
                break
            if q is None and any(atom(i)[0] in ("unk", "carried", "mphi") for i in all_atoms(c)):
                ok = False
                break
        if not ok:
            continue
        q = truth(rebuild_cond(subst(goal, z)), leaf)
        if q is None:
            # the length of a workspace the library asked for
            w = {i: P.c(1000) for i in goal[1].atoms() if atom(i)[0] == "fn" and str(atom(i)[1]).startswith("fpto") and atom(i)[2].single() and atom(i)[2].single()[0] == "ldv"}
            if w and all(truth(rebuild_cond(subst(subst(c, z), w)), leaf) for c in F.conds if any(i in w for i in all_atoms(c))):
                q = truth(rebuild_cond(subst(subst(goal, w), z)), leaf)
        if q is False:
            return REFUTED, "for extents %s" % " ".join("x".join(str(v) for v in part) for part in split(vals, [r for t, r in tens]))
    if d is None and bad_atoms(goal[1], ("uninit",)) and not bad_atoms(goal[1], ("unk", "kx", "phi", "mphi", "carried", "ldv")):
        return REFUTED, "a value that is never set decides: %s" % show(goal)[:120]
    return UNK, "not established: %s" % show(goal)[:120]


def split(vals, rs):
    p = 0
    for r in rs:
        yield vals[p:p + r]
        p += r
