"""Files of records: what is dumped is what is loaded."""
from streams import *

PAIRS = ["Tensor<double>", "Tensor<std::complex<double>>", "std::vector<Tensor<double>>", "std::vector<Tensor<std::complex<double>>>",
         "double", "std::complex<double>", "unsigned long", "int"]


def run(ctx):
    ctx.rule("round trip", "the reader of a type takes exactly the items, with their lengths and in the order, that its writer leaves, accepts them, and ends with the dimensions and elements (or value) that were written")
    ctx.rule("name", "the name that was written is the one compared, for every length; a record with another name is refused")
    ctx.rule("type", "a record of another type is refused")
    ctx.rule("header", "a new file starts with a header that the reader accepts and that names the word sizes; opening an existing file keeps its records")
    fns = {}
    for fn in ctx.get(r"^sdf::(OutDataFile::dump|InDataFile::load)\("):
        s = strip(fn.dem)
        m = re.match(r"^(Out|In)DataFile::\w+\((.*), string const&\)$", s)
        if m:
            T = re.sub(r" const&$|\*$", "", m.group(2))
            T = re.sub(r", std::allocator<.*>>$", ">", T)
            fns[m.group(1), T] = fn
    traces = {}
    for k, fn in fns.items():
        traces[k] = paths(ctx, fn)
    for T in PAIRS:
        w, r = fns.get(("Out", T)), fns.get(("In", T))
        if w is None or r is None:
            ctx.add("sdf", "round trip", UNK, "no writer or reader for %s" % T, None)
            continue
        trip(ctx, T, w, r, traces["Out", T], traces["In", T])
        names(ctx, T, w, r, traces["Out", T], traces["In", T])
    types(ctx, fns, traces)
    header(ctx)


def paths(ctx, fn):
    w, cases, err = ctx.summary(fn, None)
    if cases is None:
        return None, err
    out = []
    for c in cases:
        if c.outcome != "ret" or infeasible(c.facts):
            continue
        try:
            out.append(Trace(w, c))
        except (Other, Unknown, Lost) as x:
            return None, str(x)
    return out, None


def rename(x):
    """objects of the writer apart from those of the reader"""
    return subst(x, WREN) if isinstance(x, (P, tuple)) else x


WREN = {}
for _k in (0, 1, 2):
    WREN[list(P.a("argp", _k).atoms())[0]] = P.a("argp", "w%d" % _k)


class Match:
    """the reader's items against the writer's: what each location of the reader holds"""

    def __init__(self, wt, rt):
        self.wt, self.rt = wt, rt
        self.sigma, self.content, self.objs = {}, {}, {}
        self.rules = []          # (kind, address, event) -> value

    def res(self, x):
        """a form of the reader in terms of what was written"""
        if not isinstance(x, P):
            return x
        for _ in range(4):
            z = {}
            for i in all_atoms(x):
                v = self.value(atom(i))
                if v is not None:
                    z[i] = v
            if not z:
                break
            x = subst(x, z)
        return x

    def value(self, a):
        if a[0] in ("ld", "ldv") and len(a) >= 3 and isinstance(a[2], P):
            for addr, rid, v, nb in self.rules:
                if a[2] == addr and (a[0] == "ldv" and len(a) > 3 and a[3] == rid):
                    return v
            # element of an object loaded by a nested call
            for rid, k, wobj in self.objs.values():
                for off, nm in ((0, "data"), (8, "dims")):
                    b = P.a("buf", rid, k, P.c(off))
                    d = a[2] - b
                    if d.const() is not None:
                        return self.written(wobj, off, int(d.const()), a[1])
        if a[0] == "vsize" and len(a) == 4:
            for rid, k, wobj in self.objs.values():
                if a[1] == rid and a[2] == k:
                    off = a[3].const() if isinstance(a[3], P) else a[3]
                    return rename(self.wt.w.vec(self.wt.cs, wobj + int(off)).size)
        return None

    def written(self, wobj, off, o, ty):
        try:
            v = self.wt.w.vec(self.wt.cs, wobj + off)
            if v.size.const() is not None and (o < 0 or o >= v.es * v.size.const()):
                return P.a("uninit", "outside")
            return rename(self.wt.w.lookup(self.wt.cs, v.buf + o, 8, ty, len(self.wt.c.eff)))
        except Unknown:
            return None

    def run(self, wi, ri, nested=False):
        for k in range(max(len(wi), len(ri))):
            if k >= len(ri):
                return REFUTED, "%s of the record are never read" % wi[k], wi[k].loc
            if k >= len(wi):
                return REFUTED, "%s are read past the end of the record" % ri[k], ri[k].loc
            v, d = self.item(wi[k], ri[k])
            if v != PROVED:
                return v, "item %d: %s" % (k + 1, d), ri[k].loc or wi[k].loc
        return PROVED, "", None

    def item(self, a, b):
        if b.kind == "raw":
            if a.kind not in ("name", "val", "mem"):
                return REFUTED, "%s written, %s read" % (a, b)
            na, nb = rename(a.n), self.res(b.n)
            na, nb = mono(na), mono(nb)
            F = Facts()
            for c in self.wt.c.facts.conds:
                if c[0] == "ge":
                    F = F.add(cge(rename(c[1])))
            s = same(na, nb, F)
            if s is not True:
                lost_ = any(bad_atoms(x, ("unk", "kx", "uninit", "res", "callp")) for x in (na, nb))
                return (UNK if lost_ else REFUTED), "%s bytes are written, %s are read" % (short(na), short(nb))
            if a.kind == "val":
                self.rules.append((b.ptr, b.rid, rename(a.val), int(na.const() or 8)))
            elif a.kind == "mem":
                self.content[b.ptr] = (a.ptr, b.at)
            else:
                self.content[b.ptr] = ("name", b.at)
            return PROVED, ""
        if a.kind != b.kind:
            return REFUTED, "%s written, %s read" % (a, b)
        if b.kind == "rec":
            if a.T != b.T:
                return REFUTED, "a %s is written, a %s is read" % (a.T, b.T)
            self.objs[b.obj] = (b.rid, 1, a.obj)
            if a.T in ("double", "std::complex<double>"):
                self.rules.append((b.obj, b.rid, rename(a.obj), 8))
            return PROVED, ""
        na, nb = rename(a.count), self.res(b.count)
        if same(na, nb, Facts()) is not True:
            return (UNK if bad_atoms(nb, ("unk", "kx", "uninit")) or bad_atoms(na, ("unk", "kx", "phi", "uninit", "carried")) else REFUTED), "%s entries are written, %s are read" % (short(na), short(nb))
        for ca, xa in a.bodies:
            for cb, xb in b.bodies:
                r = self.entry(a, b, ca, xa, cb, xb, na)
                if r[0] != PROVED:
                    return r
        return PROVED, ""

    def entry(self, a, b, ca, xa, cb, xb, count):
        """one iteration of a writing loop against one of the reading loop; ca, cb: when they are run this way"""
        A, B = list(kp(a.iv).atoms())[0], list(kp(b.iv).atoms())[0]
        one = len(a.bodies) == len(b.bodies) == 1

        def when(bad, count=count):
            """the iterations for which this pair is run and bad(leaf) holds: True, False, or None when not known"""
            n = list(count.atoms())
            if len(n) != 1 or count != P({(n[0],): 1}):
                return None
            res = False
            for N in list(range(0, 41)) + [64, 65, 100, 1000]:
                for k in list(range(min(N, 41))) + [N - 1]:
                    if k < 0:
                        continue
                    leaf = {n[0]: N, A: k, B: k}
                    t = [self.any_of(ca, leaf, False), self.any_of(cb, leaf, True)]
                    if False in t:
                        continue
                    x = bad(leaf)
                    if None in t or x is None:
                        res = None
                    elif x:
                        return True
            return res
        if len(xa) != len(xb) or any(x.kind != "rec" or y.kind != "rec" for x, y in zip(xa, xb)):
            if one or any(x.kind != "rec" for x in xa + xb):
                return UNK, "loop form"
            t = when(lambda leaf: True)
            return (REFUTED if t else PROVED if t is False else UNK), "%d records are written and %d read" % (len(xa), len(xb))
        for x, y in zip(xa, xb):
            if x.T != y.T:
                return REFUTED if one or when(lambda leaf: True) else UNK, "entries are written as %s and read as %s" % (x.T, y.T)
            ix, iy = index_of(x.obj), index_of(y.obj)
            if ix is None or iy is None:
                return UNK, "entry address"
            fa, fb = rename(ix[1]), self.res(iy[1])
            ia = subst(fa, {A: P.a("iv", "k")})
            ib = subst(fb, {B: P.a("iv", "k")})
            if ia != ib:
                def differ(leaf):
                    v = value(fa, leaf), value(fb, leaf)
                    return None if None in v else v[0] != v[1]
                t = when(differ)
                return (REFUTED if t else UNK), "entry %s is written and read into place %s" % (show(ia), show(ib))
            if ix[0] != WP1 or iy[0] != WP1:
                return UNK, "entries of another object"
            if y.lit is None or y.lit[0] != "lit" or y.lit[1] and (x.lit is None or x.lit != y.lit):
                return (UNK if y.lit is None else REFUTED), "entries are read under the name %s" % (y.lit and y.lit[1])
        return PROVED, ""

    def any_of(self, alts, leaf, reader):
        ts = []
        for conds in alts:
            t = True
            for c in conds:
                if len(c) > 1 and isinstance(c[1], P):
                    c = (c[0], self.res(c[1]) if reader else rename(c[1])) + tuple(c[2:])
                x = truth(c, leaf)
                if x is False:
                    t = False
                    break
                if x is None:
                    t = None
            ts.append(t)
        return True if True in ts else None if None in ts else False


WP1 = P.a("argp", 1)


def kp(iv):
    return P({(iv,): 1}) if isinstance(iv, int) else P.a(*iv)


def mono(x):
    return plain(x)


def index_of(p):
    """(vector, index) of an element reference"""
    s = p.single() if isinstance(p, P) else None
    if s and s[0] == "callp":
        m = s[1].single() if isinstance(s[1], P) else s[1]
        if isinstance(m, tuple) and m[0] == "evt" and re.search(r"::(operator\[\]|at)\(unsigned long\)", m[1]) and len(m[2]) == 2:
            return m[2][0], m[2][1]
    return None


def selected(m, rt):
    """is the reader's path taken for what was written?"""
    und = None
    for c in rt.c.facts.conds:
        if c[0] not in ("ge", "eq", "ne"):
            continue
        q = m.res(c[1])
        v = q.const()
        if v is None:
            continue
        t = v >= 0 if c[0] == "ge" else (v == 0) == (c[0] == "eq")
        if not t:
            return False
    return True


def trip(ctx, T, w, r, wp, rp):
    (ws, we), (rs, re_) = wp, rp
    if ws is None or rs is None:
        return ctx.unk(r, "round trip", "%s: %s" % (T, we or re_))
    if not ws or not rs:
        return ctx.verdict(r, "round trip", REFUTED, "%s: every path of the %s aborts" % (T, "writer" if not ws else "reader"), None)
    worst = (PROVED, "", None)
    rank = {PROVED: 0, UNK: 1, REFUTED: 2}
    n, key = 0, None
    for wt in ws:
        taken = 0
        for rt in rs:
            m = Match(wt, rt)
            v, d, loc = m.run(wt.items, rt.items)
            if v == PROVED:
                if not selected(m, rt):
                    continue
                taken += 1
                n += 1
                v, d, loc, *kk = final(m, T, w, r)
                key = kk[0] if kk else key
            elif not selected(m, rt):
                continue
            else:
                taken += 1
            if rank[v] > rank[worst[0]]:
                worst = (v, d, loc)
        if not taken and worst[0] == PROVED:
            worst = (REFUTED, "no path of the reader accepts the record", rs[0].c.loc)
    ctx.verdict(r, "round trip", worst[0], "%s: %s" % (T, worst[1] or "%d pairs of paths" % n), worst[2], key=key)


def final(m, T, w, r):
    """what the reader's object holds at the end"""
    rt, wt = m.rt, m.wt
    c = rt.c
    if T.startswith("Tensor"):
        # elements copied between buffers after they were read
        cont = {}
        reads = {x.ptr: (x.at, m.content.get(x.ptr)) for x in rt.items if x.kind == "raw"}
        for n, e in enumerate(c.eff):
            if e[0] == "vcopy":
                b = e[2]
                src = cont.get(b) or (reads[b][1] if b in reads and reads[b][0] < n else None)
                if src:
                    cont[e[1]] = src
            elif e[0] == "call" and "istream::read(" in str(e[1]) and e[2][1] in reads:
                cont[e[2][1]] = reads[e[2][1]][1]
        for off, what in ((8, "dimensions"), (0, "elements")):
            v = rt.w.vec(rt.cs, WP1 + off)
            want = wt.w.vec(wt.cs, WP1 + off)
            s = same(m.res(v.size), rename(want.size), Facts())
            if s is not True:
                return (REFUTED if s is False else UNK), "%s of %s: %s" % ("number", what, short(m.res(v.size))), c.loc
            got = cont.get(v.buf)
            if got is None:
                return UNK, "%s do not come from the file" % what, c.loc
            if got[0] != want.buf:
                return (REFUTED if got[0] == "name" or isinstance(got[0], P) and got[0].single() and got[0].single()[0] == "buf" else UNK), "the %s are what was written from %s" % (what, show(got[0]) if isinstance(got[0], P) else got[0]), c.loc
        return PROVED, "", None
    if T.startswith("std::vector"):
        n = None
        for e in c.eff:
            if e[0] == "call" and "::resize(unsigned long)" in str(e[1]) and e[2][0] == WP1:
                n = m.res(e[2][1])
        want = [x for x in wt.items if x.kind == "loop"]
        if n is None:
            return UNK, "the length of the result", c.loc
        sm = same(n, rename(want[0].count), Facts()) if want else None
        if sm is not True:
            return (REFUTED if sm is False else UNK), "the result has %s entries" % short(n), c.loc
        cnt = want[0].count.single()
        mm = cnt[1].single() if cnt and cnt[0] == "res" and isinstance(cnt[1], P) else cnt[1] if cnt and cnt[0] == "res" else None
        if not (isinstance(mm, tuple) and mm[0] == "evt" and "::size()" in mm[1] and mm[2][0] == WP1):
            return UNK, "the number of entries written is %s" % short(want[0].count), c.loc
        return PROVED, "", None
    # numbers
    k = 2 if "complex" in T else 1
    ty = {"int": ("i32", 4), "unsigned long": ("i64", 8)}.get(T, ("double", 8))
    for j in range(k):
        got = m.res(rt.w.lookup(rt.cs, WP1 + 8 * j, ty[1], ty[0], len(c.eff)))
        want = WANT(wt, j)
        got = fold(got)
        if got == want:
            continue
        s = show(got)
        if bad_atoms(got, ("unk", "kx", "ldv", "carried")):
            return UNK, "value %s" % s[:80], c.loc
        if bad_atoms(got, ("uninit",)):
            return REFUTED, "the value is read from outside the record", c.loc
        if re.search("fpto[us]i|[us]itofp|fptrunc", s):
            return REFUTED, "the value passes through a conversion that does not keep it: %s" % s[:80], c.loc, "%s | round trip | %s" % (T, s)
        return (REFUTED if same(got, want, Facts()) is False else UNK), "value %s" % s[:80], c.loc
    return PROVED, "", None


def WANT(wt, j):
    return P.a("arg", 1 + j, wt.w.fn["args"][1 + j]["ty"])


def fold(x):
    """32-bit integers survive the way through a double"""
    z = {}
    for i in all_atoms(x):
        a = atom(i)
        if a[0] == "fn" and a[1] in ("fptosii32", "fptouii32"):
            q = a[2]
            b = q.single() if isinstance(q, P) else None
            if b and b[0] == "arg" and b[-1] in ("i32", "i16", "i8"):
                z[i] = q
    return subst(x, z) if z else x


def names(ctx, T, w, r, wp, rp):
    ws, rs = wp[0], rp[0]
    if ws is None or rs is None:
        return
    p2 = P.a("argp", 2)
    pw = P.a("argp", len(ws[0].w.fn["args"]) - 1) if ws else p2
    wi = [t.items[0] for t in ws if t.items]
    if all(x.kind == "rec" for x in wi) and wi:
        bad = [x for x in wi if x.name != pw]
        ri = [t.items[0] for t in rs if t.items]
        bad += [x for x in ri if x.kind != "rec" or x.name != p2]
        if bad:
            return ctx.verdict(r, "name", UNK, "%s: the name is not handed on" % T, bad[0].loc)
        return ctx.ok(r, "name", T)
    kw = set()
    for x in wi:
        if x.kind != "name" or x.src != pw:
            return ctx.verdict(w, "name", UNK, "%s: the record does not start with its name" % T, x.loc)
        if x.zero is None or x.zero != x.n:
            t = ws[wi.index(x)]
            blk = x.blk
            only = not any(e[0] in ("st", "set", "cpy") and isinstance(e[1], P) and blk is not None and list(blk.atoms())[0] in e[1].atoms() for e in t.c.eff)
            return ctx.verdict(w, "name", UNK if x.zero is None and not (only and blk.single() and blk.single()[0] == "heap") else REFUTED, "%s: bytes after the name are not set" % T, x.loc)
        if not (x.cnt.single() and x.cnt.single()[0] == "res"):
            kw.add(x.cnt)
    # a count equal to the size is bounded on its path
    for t, x in zip(ws, wi):
        if x.cnt.single() and x.cnt.single()[0] == "res":
            cond = [c for c in t.c.facts.conds if show(x.cnt) in show(c) and c[0] in ("bool", "nbool", "ge")]
            if not cond:
                return ctx.verdict(w, "name", REFUTED, "%s: a name of any length is copied to the %s bytes of the field" % (T, short(x.n)), x.loc)
    v = (PROVED, T, None)
    for t in rs:
        if not t.items or t.items[0].kind != "raw":
            return ctx.verdict(r, "name", UNK, "%s: the record does not start with its name" % T, t.c.loc)
        empty, eq, cut, und = False, False, None, False
        for c in t.c.facts.conds:
            for i in all_atoms(c[1]) if len(c) > 1 and isinstance(c[1], P) else []:
                a = atom(i)
                if a[0] != "evt":
                    continue
                nm = strip(a[1])
                if nm.startswith("string::size()") or nm.startswith("string::length()"):
                    if a[2] and a[2][0] == p2 and c[0] == "eq":
                        empty = True
                elif nm.startswith("string::empty()") and a[2][0] == p2:
                    if c[0] == "bool" or c[0] == "ne":
                        empty = True
                elif "operator!=" in nm or "operator==" in nm or "string::compare(" in nm:
                    pos = (c[0] in ("nbool", "eq")) if "!=" in nm or "compare" in nm else c[0] in ("bool", "ne")
                    ops = a[2][:2]
                    st = [x for x in ops if t.strs.get(x, ("",))[0] == "stored" and t.strs[x][1] is t.items[0]]
                    oth = [x for x in ops if x not in st]
                    if not st or not oth:
                        und = True
                        continue
                    if not pos:
                        v = (REFUTED, "%s: a record with another name is accepted" % T, t.c.loc)
                    src, frm, cnt = t.subs.get(oth[0], (oth[0], ZERO, None))
                    if src != p2 or frm != ZERO:
                        und = True
                    else:
                        eq, cut = True, cnt
        if v[0] == REFUTED:
            break
        if eq:
            if cut is None:
                if kw:
                    v = (REFUTED, "%s: names longer than the field are stored shortened and then compared in full" % T, t.c.loc)
            elif kw != {cut}:
                num = [fixed(ctx, x) for x in kw] + [fixed(ctx, cut)]
                if None not in num and len(set(num)) == 1:
                    continue
                v = (REFUTED if None not in num or len(kw) == 1 and all(x.const() is not None or x.single() is None for x in kw) else UNK, "%s: %s characters of the name are stored, %s are compared" % (T, ", ".join(short(x) for x in kw), short(cut)), t.c.loc)
        elif not empty:
            if und:
                v = (UNK, "%s: form of the comparison of names" % T, t.c.loc)
            else:
                v = (REFUTED, "%s: a record with another name is accepted" % T, t.c.loc)
    ctx.verdict(r, "name", *v)


def types(ctx, fns, traces):
    """a record of one tensor type is not taken for another"""
    base = [T for T in PAIRS if (traces.get(("Out", T)) or (None,))[0] and traces["Out", T][0] and not any(x.kind == "rec" for x in traces["Out", T][0][0].items[:1])]
    for A in base:
        for B in base:
            if A == B or (traces.get(("In", B)) or (None,))[0] is None:
                continue
            v = (PROVED, "", None)
            for wt in traces["Out", A][0]:
                for rt in traces["In", B][0]:
                    m = Match(wt, rt)
                    k = 0
                    st = PROVED
                    for a, b in zip(wt.items[:2], rt.items[:2]):
                        st, d = m.item(a, b)
                        if st != PROVED:
                            break
                    if st != PROVED:
                        v = (UNK, "%s read as %s: %s" % (A, B, d), rt.c.loc)
                    elif selected(m, rt):
                        v = (REFUTED, "a record of a %s is accepted as a %s" % (A, B), rt.c.loc)
            ctx.verdict(fns["In", B], "type", v[0], v[1] or "a %s is refused" % A, v[2])


def header(ctx):
    W = ctx.get(r"^sdf::OutDataFile::OutDataFile\(")
    R = ctx.get(r"^sdf::InDataFile::InDataFile\(")
    for fw in W:
        ww, wc, we = ctx.summary(fw, None)
        if wc is None:
            ctx.unk(fw, "header", we)
            continue
        recs = []
        for c in wc:
            if c.outcome != "ret" or infeasible(c.facts):
                continue
            ex = None
            for x in c.facts.conds:
                if x[0] in ("bool", "nbool") and "file_exists(" in show(x):
                    ex = x[0] == "bool"
            op = [e for e in c.eff if e[0] == "call" and re.search(r"basic_ofstream<.*>::(open|basic_ofstream)\(char const\*", str(e[1]))]
            if len(op) != 1:
                ctx.unk(fw, "header", "how the file is opened")
                return
            mode = op[0][2][2].const() if isinstance(op[0][2][2], P) else None
            if mode is None:
                ctx.unk(fw, "header", "open mode")
            elif int(mode) & 32 or not int(mode) & 1 and not (int(mode) & 8 and int(mode) & 2):
                ctx.verdict(fw, "header", REFUTED if not int(mode) & 8 or int(mode) & 32 else UNK, "an existing file is opened with mode %d, which does not keep its records" % mode, op[0][3])
            try:
                t = Trace(ww, c)
            except (Other, Unknown) as x:
                ctx.unk(fw, "header", str(x))
                return
            recs.append((ex, t))
        v = (PROVED, "", None)
        for ex, t in recs:
            if ex is None:
                v = (UNK, "whether the file existed is not asked", t.c.loc)
            elif ex and t.items:
                v = (REFUTED, "a header is written in the middle of an existing file", t.items[0].loc)
            elif not ex and not t.items:
                v = (REFUTED, "a new file gets no header", t.c.loc)
        if v[0] == PROVED:
            for fr in R:
                x = head_pair(ctx, fr, [t for ex, t in recs if not ex])
                if x[0] != PROVED:
                    v = x
        ctx.verdict(fw, "header", v[0], v[1] or "%d paths" % len(recs), v[2])


def consts(ctx, a):
    """value of a constant object of the library"""
    if a[0] != "ld" or not isinstance(a[2], P):
        return None
    g = a[2].single()
    if not g or g[0] != "g":
        return None
    for src, u in ctx.units("vec", ["src/sdf/data_file.cc"]):
        x = u.globals.get(g[1])
        if x and len(x) > 4 and x[3] and isinstance(x[4], list) and x[4][0] == "ci":
            return P.c(x[4][1])
    return None


def fixed(ctx, x):
    """number of a form over the constants of the library"""
    leaf = {}
    for i in all_atoms(x):
        c = consts(ctx, atom(i))
        if c is not None:
            leaf[i] = int(c.const())
    return value(x, leaf)


def head_pair(ctx, fr, wts):
    rp, err = paths(ctx, fr)
    if rp is None:
        return UNK, err, None
    if not rp:
        return REFUTED, "no file is accepted", None
    for wt in wts:
        ok, und = 0, None
        for rt in rp:
            if len(wt.items) != 1 or len(rt.items) != 1:
                return (UNK if any(x.kind not in ("name", "val", "mem", "raw") for x in wt.items + rt.items) else REFUTED), "%d items written, %d read" % (len(wt.items), len(rt.items)), rt.c.loc
            a, b = wt.items[0], rt.items[0]
            m = Match(wt, rt)
            v, d = m.item(a, b)
            if v != PROVED:
                return v, d, b.loc
            s = wt.strs.get(a.src) if a.kind == "name" else None
            if not s:
                return UNK, "text of the header", a.loc

            def char(k):
                if s[0] == "lit":
                    return P.c(ord(s[1][k])) if k < len(s[1]) else ZERO
                x = wt.w.lookup(wt.cs, s[1] + k, 1, "i8", s[2])
                z = {}
                for i in x.atoms():
                    q = atom(i)
                    if q[0] == "trunc":
                        z[i] = q[2]
                    elif q[0] == "ld":
                        g = [y for y in q[2].atoms() if atom(y)[0] == "g"]
                        if len(g) == 1:
                            off = (q[2] - P({(g[0],): 1})).const()
                            tx = wt.w.unit.text(atom(g[0])[1])
                            if tx is not None and off is not None:
                                z[i] = P.c(ord(tx[int(off)]) if off < len(tx) else 0)
                return subst(x, z) if z else x
            good = True
            seen = set()
            for c in rt.c.facts.conds:
                if c[0] not in ("eq", "ne", "ge"):
                    continue
                z = {}
                for i in all_atoms(c[1]):
                    q = atom(i)
                    if q[0] in ("ld", "ldv") and isinstance(q[2], P):
                        ix = q[2].single()
                        if ix and ix[0] == "callp":
                            mm = ix[1].single() if isinstance(ix[1], P) else ix[1]
                            if isinstance(mm, tuple) and mm[0] == "evt" and "::operator[]" in mm[1] or isinstance(mm, tuple) and mm[0] == "evt" and "::at(" in mm[1]:
                                k = mm[2][1].const() if isinstance(mm[2][1], P) else None
                                if k is not None and rt.strs.get(mm[2][0], ("",))[0] == "stored":
                                    z[i] = char(int(k))
                                    seen.add(int(k))
                if not z:
                    continue
                q = plain(subst(c[1], z))
                q = subst(q, {i: g for i, g in ((i, consts(ctx, atom(i))) for i in q.atoms()) if g is not None})
                val = q.const()
                if val is None:
                    und = "condition %s" % show(q)[:80]
                    continue
                if (val >= 0 if c[0] == "ge" else (val == 0) == (c[0] == "eq")) is False:
                    good = False
            if good:
                ok += 1
                if not und:
                    miss = [k for k in (0, 1, 2, 3, 4, 5) if k not in seen]
                    if miss and seen:
                        return (REFUTED if 3 in miss or 4 in miss or 5 in miss else UNK), "character %d of the header is not checked" % miss[0], rt.c.loc
                    if not seen:
                        und = "form of the header check"
        if und:
            return UNK, und, None
        if not ok:
            return REFUTED, "the header that is written is refused", rp[0].c.loc
    return PROVED, "", None
