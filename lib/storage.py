"""The reference-counted storage, seen from its members' effects on the heap.

The layout (where a block keeps its data pointer, length, count and ownership flag) is read off the accessors;
every other member is then required to move the heap from one well-formed state to another.
"""
import re
from framework import *
from poly import *
from spec import *
from walk import *

ELS = ["double", "std::complex<double>", "long", "bool", "int"]
PROBE = os.path.join(VERIF, "probe_raw", "refcount.cc")
T0 = P.a("argp", 0)
T1 = P.a("argp", 1)


def esz(el):
    return {"std::complex<double>": 16, "bool": 1, "int": 4}.get(el, 8)


class Lost_(Exception):
    pass


class Storage:
    """the members of Vector<el> (or RefPointer<el>) and the layout of a block"""

    def __init__(self, ctx, cls, el):
        self.ctx, self.cls, self.el, self.es = ctx, cls, el, esz(el)
        self.pre = "tensor::%s<%s>::" % (cls, el)
        self.fns = {f.dem[len(self.pre):]: f for f in ctx.fns("raw", [PROBE]) if f.dem.startswith(self.pre) and "::" not in f.dem[len(self.pre):].split("(")[0]}
        self.B = P.a("ldp", "ptr", T0)
        self.O = P.a("ldp", "ptr", T1)
        self.layout()

    def fn(self, *names):
        for n in names:
            for k, f in self.fns.items():
                if k.replace(" ", "") == n.replace(" ", ""):
                    return f
        return None

    def ret1(self, *names):
        f = self.fn(*names)
        if f is None:
            raise Lost_("no member " + names[0])
        w, cases, err = self.ctx.summary(f)
        if cases is None:
            raise Lost_("%s: %s" % (names[0], err))
        rs = [c for c in cases if c.outcome == "ret"]
        if len(rs) != 1 or rs[0].eff:
            raise Lost_("%s is not a plain accessor" % names[0])
        return rs[0].ret

    def field(self, r, kinds):
        a = r.single() if isinstance(r, P) else None
        if not a or a[0] not in kinds:
            raise Lost_("accessor reads %s" % (show(r) if isinstance(r, P) else r))
        b = a[-1]
        off = (b - self.B).const()
        if off is None:
            raise Lost_("accessor reads %s" % show(r))
        return int(off), a[1]

    def layout(self):
        r = self.ret1("size() const")
        self.osize, self.tsize = self.field(self.strip(r), ("ld",))
        err = None
        for nm in ("begin_const() const", "begin() const", "operator[](long) const"):
            try:
                r = self.ret1(nm)
                if nm.startswith("operator"):
                    r = subst(r, {list(P.a("arg", 1, "i64").atoms())[0]: ZERO})
                self.odata, _ = self.field(r, ("ldp", "ld"))
                break
            except Lost_ as e:
                err = e
        else:
            raise err
        r = self.ret1("ref_count() const")
        self.orefs, self.trefs = self.field(self.strip(r), ("ld",))

    def strip(self, r):
        while isinstance(r, P) and r.single() and r.single()[0] in ("trunc", "sx", "zx", "zext", "sext"):
            r = r.single()[2]
        a = r.single() if isinstance(r, P) else None
        if a and a[0] == "bitand":          # a masked count: what the mask does is decided by the members that use it
            inner = [x for x in a[1:] if isinstance(x, P) and x.single() and x.single()[0] == "ld"]
            if len(inner) == 1:
                return inner[0]
        return r

    def size(self, blk):
        return P.a("ld", self.tsize, blk + self.osize)

    def refs(self, blk):
        return P.a("ld", self.trefs, blk + self.orefs)

    def data(self, blk):
        return P.a("ldp", "ptr", blk + self.odata)


def nz(x):
    return ("ne", x)


class Final:
    """heap after a case: last value written to each (address), blocks freed and allocated"""

    def __init__(self, s, w, c, F):
        self.s, self.w, self.c, self.F = s, w, c, F
        self.mem = {}
        self.freed = []
        self.alloc = {}
        self.other = []
        for n, e in enumerate(c.eff):
            if e[0] == "st":
                self.mem[e[1]] = (e[3], n)
                if any(F.eq0(e[1] - x) for x, _ in self.freed):
                    self.other.append(("store into freed memory", e[4] if len(e) > 4 else None))
            elif e[0] == "free":
                self.freed.append((e[1], e))
            elif e[0] == "alloc":
                self.alloc[e[1]] = e
            elif e[0] in ("cpy", "set", "for", "vnew", "vcopy", "map"):
                pass
            elif e[0] in ("call", "havoc"):
                raise Lost_("calls %s" % (e[1],))

    def get(self, addr, default):
        v = self.mem.get(addr)
        if v is None:
            for a, x in self.mem.items():
                if self.F.eq0(a - addr):
                    return x[0]
            return default
        return v[0]

    def nfree(self, p):
        return sum(1 for x, _ in self.freed if x == p or self.F.eq0(x - p))

    def touched(self, p, lo=0, hi=64):
        """is memory at p+[lo,hi) written?"""
        b = base_of(p)[0]
        out = []
        for n, e in enumerate(self.c.eff):
            if e[0] == "st":
                d = (e[1] - p).const()
                if d is not None and lo <= d < hi:
                    out.append(e)
        return out

    def writes_data(self, dp):
        """a store, copy or loop whose target lies in the element buffer dp"""
        base = base_of(dp)[0]
        for e in flat_effects(self.c.eff):
            if e[0] in ("st", "cpy", "set"):
                if base_of(e[1])[0] == base:
                    return e
        return None


def flat_effects(eff):
    for e in eff:
        if e[0] == "for":
            for conds, body in e[3]:
                yield from flat_effects(body)
        else:
            yield e


def run_member(ctx, s, f, other=None):
    """cases of member f, split by: count of the own block 1 / more.  `other` says how a second handle passed to f relates
    to this one: a different block, another handle on the same block, or the very same handle"""
    B, O = s.B, s.O
    facts = [nz(B), cge(s.refs(B) - 1), cge(s.size(B))]
    preset = None
    if other == "another block":
        facts += [nz(O), cge(s.refs(O) - 1), cge(s.size(O)), nz(O - B)]
    elif other == "another handle on the same block":
        facts += [cge(s.refs(B) - 2)]

        def preset(w, st):
            st.eff.append(("st", T1, 8, B, None, "ptr"))
    elif other == "itself":
        def preset(w, st):
            st.env[w.fn["args"][1]["id"]] = T0
    w, cases, err = ctx.summary(f, None, facts=tuple(facts), key=("wf", other), preset=preset)
    if cases is None:
        raise Lost_(err)
    for c in cases:
        if c.outcome != "ret":
            if not infeasible(c.facts):
                yield w, c, c.facts, "aborts"
            continue
        for nm, split in (("sole owner", ceq(s.refs(B) - 1)), ("shared", cge(s.refs(B) - 2))):
            F = c.facts.add(split)
            if infeasible(F) or c.facts.decide(split) is False:
                continue
            yield w, c, F, nm


# ------------------------------------------------------------------ contracts
def released(s, fin, blk, share):
    """None, or why the release of one reference to blk is wrong"""
    F = fin.F
    d = s.data(blk)
    if share == "shared":
        if fin.nfree(blk) or fin.nfree(d):
            return "frees storage that other handles still use"
        r = fin.get(blk + s.orefs, s.refs(blk))
        if not F.eq0(r - s.refs(blk) + 1):
            return "leaves the count of a shared block at %s instead of one less than %s" % (show(r), show(s.refs(blk)))
        return None
    n = fin.nfree(blk)
    if n != 1:
        return "the last handle frees its block %d times" % n
    n = fin.nfree(d)
    null = F.decide(ceq(d))
    own = s.owned_known(fin, blk)
    if null is True:
        return None
    if own is True and n != 1:
        return "the last handle frees the elements it owns %d times" % n
    if own is False and n:
        return "frees elements that the block does not own"
    if own is None:
        # the code did not look: both situations take this path
        if n == 0:
            return "the last handle never frees the elements it owns"
        return "frees the elements without asking whether the block owns them"
    if n and not all(e[3].startswith("operator delete[]") for x, e in fin.freed if F.eq0(x - d)):
        return "elements allocated with new[] are not released with delete[]"
    return None


def owned_known(self, fin, blk):
    a = P.a("ld", self.towned, blk + self.oowned)
    F = fin.F
    for c in F.conds:
        if c[0] in ("bool", "nbool") and any(i in all_atoms(c[1]) for i in a.atoms()):
            return c[0] == "bool"
    r = F.decide(ceq(a))
    if r is True:
        return False
    if F.decide(("ne", a)) is True:
        return True
    return None


Storage.owned_known = owned_known


def fresh_block(s, fin, blk, size, owned=True, data=None):
    """None or what is wrong with a newly made block"""
    F = fin.F
    if not (isinstance(blk, P) and blk.single() and blk.single()[0] == "heap"):
        return "does not point at a new block but at %s" % show(blk)
    r = fin.get(blk + s.orefs, None)
    if r is None or not F.eq0(r - 1):
        return "a new block starts with %s references" % (show(r) if r is not None else "an undefined number of")
    n = fin.get(blk + s.osize, None)
    if n is None or not F.eq0(n - size):
        return "a new block records %s elements instead of %s" % (show(n) if n is not None else "an undefined number of", show(size))
    d = fin.get(blk + s.odata, None)
    if d is None:
        return "the data pointer of a new block is not set"
    o = fin.get(blk + s.oowned, None)
    if o is None:
        return "the ownership flag of a new block is not set"
    if data is not None:
        if not F.eq0(d - data):
            return "a new block points at %s instead of %s" % (show(d), show(data))
        if not F.eq0(o):
            return "a block over foreign data claims to own it"
        return None
    if not F.eq0(d):
        if F.eq0(o):
            return "a block with its own data does not own it"
        if F.decide(("ne", o)) is not True:
            raise Lost_("ownership flag %s" % show(o))
    if d.single() and d.single()[0] == "heap":
        a = fin.alloc.get(d)
        if a is None:
            return "data pointer not from an allocation"
        if not F.ge0(a[2] - size * s.es):
            return "%s bytes are allocated for %s elements of %d bytes" % (show(a[2]), show(size), s.es)
        if a[4] != "new[]":
            return "elements are allocated with %s and released with delete[]" % a[4]
    elif F.eq0(d):
        if not F.eq0(size):
            return "no elements are allocated"
    else:
        return "data pointer is %s" % show(d)
    if fin.nfree(blk) or fin.nfree(d):
        return "the new block is freed again"
    return None


def leaks(s, fin, kept):
    """allocations that nothing refers to at the end"""
    for h, e in fin.alloc.items():
        if fin.nfree(h):
            continue
        if not any(v is not None and fin.F.eq0(v - h) for v, _ in fin.mem.values()) and not any(h == k for k in kept):
            return e
    return None


def same_elements(s, fin, newdata, olddata, size):
    """elements of the new buffer equal those of the old one at entry"""
    k = fresh("iv", "q")
    cs = CState(fin.w, fin.c)
    if fin.F.ge0(-size):
        return None
    if fin.F.ge0(ONE - size):       # at most one element
        k = ZERO
        cs.facts = fin.F.add(ceq(size - 1))
    else:
        cs.facts = fin.F.add(cge(k)).add(cge(size - 1 - k))
    if infeasible(cs.facts):
        return None
    for lane in range(0, s.es, 8) if s.es > 8 else (0,):
        sz = min(8, s.es)
        ty = {1: "i8", 4: "i32"}.get(sz, "i64" if s.el == "long" else "double")
        v = fin.w.lookup(cs, newdata + k * s.es + lane, sz, ty, len(fin.c.eff))
        want = fin.w.initial(olddata + k * s.es + lane, ty)
        if v == want:
            continue
        a = v.single() if isinstance(v, P) else None
        if a and a[0] == "ld" and cs.facts.eq0(a[2] - olddata - k * s.es - lane):
            continue
        if s.el == "bool" and a and a[0] == "b2i" and any(i in all_atoms(v) for i in fin.w.initial(olddata + k, "i8").atoms()):
            continue
        g = uncovered(s, fin, newdata, olddata, size)
        if g is not None:
            return g
        if lost(v):
            raise Lost_("copied elements not resolved: %s" % show(v))
        return "element %s of the copy is %s" % (show(k), show(v))
    return None


def uncovered(s, fin, newdata, olddata, size):
    """a small size at which the stores of this case leave an element of the new buffer without its value, or None"""
    import witness
    nb = base_of(newdata)[0]
    for n in range(1, 7):
        leaf = {i: P.c(n) for i in size.atoms()} if size.single() else None
        if leaf is None:
            return None
        for i in s.refs(s.B).atoms():
            leaf[i] = P.c(2)
        env = witness.Env(leaf, {})
        try:
            if not all(env.cond(c)[0] == "T" for c in fin.F.conds if any(i in leaf for x in c[1:] if isinstance(x, P) for i in all_atoms(x))):
                continue
            done = set()
            for e in fin.c.eff:
                if e[0] in ("st", "cpy", "set", "for", "map", "vcopy") and isinstance(e[1], P) and base_of(e[1])[0] == nb:
                    lo = witness._int(env.ev(e[1] - newdata))
                    if e[0] == "cpy":
                        ln, src = witness._int(env.ev(e[3])), witness._int(env.ev(e[2] - olddata))
                        if lo is None or ln is None or src is None:
                            return None
                        if src == lo:
                            done |= set(range(lo, lo + ln))
                        else:
                            done -= set(range(lo, lo + ln))
                    elif e[0] == "st" and lo is not None and isinstance(e[2], int):
                        done |= set(range(lo, lo + e[2]))
                    else:
                        return None
                elif e[0] in ("for", "map"):
                    return None
            miss = [b for b in range(n * s.es) if b not in done]
            if miss:
                return "with %d elements, element %d is not copied" % (n, miss[0] // s.es)
        except (witness.Skip, KeyError, TypeError, IndexError):
            return None
    return None


def shared_with(s, fin, blk, cur):
    """this object now holds blk, whose count must be one more than at entry"""
    F = fin.F
    if not F.eq0(cur - blk):
        return "holds %s instead of the other handle's block" % show(cur)
    r = fin.get(blk + s.orefs, s.refs(blk))
    if not F.eq0(r - s.refs(blk) - 1):
        return "the count of the shared block becomes %s instead of one more" % show(r)
    if fin.nfree(blk) or fin.nfree(s.data(blk)):
        return "frees the block it shares"
    return None


def unchanged(s, fin, blk):
    F = fin.F
    for o, get in ((s.osize, s.size(blk)), (s.orefs, s.refs(blk)), (s.odata, s.data(blk))):
        v = fin.get(blk + o, get)
        if not F.eq0(v - get):
            return "changes a field of the block to %s" % show(v)
    if fin.nfree(blk) or fin.nfree(s.data(blk)):
        return "frees storage in use"
    return None


def find_owned(ctx, s):
    """the ownership flag: the remaining byte field, set by the constructors"""
    f = s.fn("Vector(long, %s*)" % s.el, "RefPointer(%s*, unsigned long, bool)" % s.el)
    if f is None:
        raise Lost_("no constructor over foreign data")
    for nm, ty, least in (("count", s.trefs, 32), ("length", s.tsize, 64)):
        n = int(ty[1:]) if re.match(r"i\d+$", ty) else 64
        ctx.verdict(f, "width of the %s" % nm, PROVED if n >= least else REFUTED, "the %s of a block has %d bits" % (nm, n))
    w, cases, err = ctx.summary(f, None)
    if cases is None:
        raise Lost_(err)
    for c in cases:
        if c.outcome != "ret":
            continue
        fin = Final(s, w, c, c.facts)
        blk = fin.get(T0, None)
        for ad, (v, n) in fin.mem.items():
            d = (ad - blk).const() if blk is not None else None
            e = c.eff[n]
            if d is not None and e[2] == 1:
                s.oowned, s.towned = int(d), "i8"
                return
    raise Lost_("no ownership flag")


def check_member(ctx, s, sig, rule, body, other=None, leak=True):
    """body(final heap, share) -> None or what is wrong, for every way member `sig` returns"""
    f = s.fn(sig)
    if f is None:
        return
    rule = rule + (" [%s]" % other if other else "")
    ctx.stats["members"] = ctx.stats.get("members", 0) + 1
    verdict, why, loc = PROVED, "", None
    n = 0
    try:
        for w, c, F, share in run_member(ctx, s, f, other):
            n += 1
            if share == "aborts":
                verdict, why, loc = REFUTED, "does not return", c.loc
                break
            fin = Final(s, w, c, F)
            if fin.other:
                verdict, (why, loc) = REFUTED, fin.other[0]
                break
            r = body(fin, share)
            if r is not None:
                if any(lost(v) for v, _ in fin.mem.values() if isinstance(v, P)) or isinstance(c.ret, P) and lost(c.ret):
                    verdict, why = UNK, r
                else:
                    verdict, why, loc = REFUTED, "%s (%s)" % (r, share), c.loc
                    break
            lk = leaks(s, fin, []) if leak else None
            if lk is not None:
                verdict, why, loc = REFUTED, "memory allocated here is lost (%s)" % share, lk[3]
                break
    except Lost_ as e:
        verdict, why = UNK, str(e)
    if not n and verdict == PROVED:
        verdict, why = UNK, "no return"
    ctx.verdict(f, rule, verdict, why or "%d cases" % n, loc)
