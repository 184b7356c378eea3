"""Discrete Fourier transforms: what is asked of FFTW, and the shift of the half planes."""
from calls import *

FORWARD, BACKWARD = -1, 1


def run(ctx):
    ctx.rule("plan", "the transform planned and executed has the extents, strides, dimensions and direction of the request, from the elements of the input to those of the result")
    ctx.rule("result", "the result has the dimensions of the input; the in-place forms transform the elements of their argument")
    ctx.rule("elements", "nothing is written through elements that were obtained for reading and may be shared with another tensor")
    ctx.rule("shift", "fftshift moves element j of the dimension to the place where the frequencies are in increasing order, and back for the backward direction")
    top = 5 if ctx.tier == "thorough" else 4
    jobs = []
    for fn in ctx.get(r"^tensor::do_fftw\(", required=False):
        kind = kind_of(fn)
        n = len(fn.sig.args)
        for r in range(1, top + 1):
            for k in (range(r) if kind == "dim" else (None,)):
                if kind == "mask" and r > 5:
                    continue
                jobs.append(lambda fn=fn, kind=kind, r=r, k=k, n=n: plan(ctx, fn, kind, r, k, raw=True))
    for fn in ctx.get(r"^tensor::fftw(_inplace)?\(tensor::Tensor"):
        kind = kind_of(fn)
        for r in range(1, top + 1):
            for k in (range(r) if kind == "dim" else (None,)):
                jobs.append(lambda fn=fn, kind=kind, r=r, k=k: plan(ctx, fn, kind, r, k, raw=False))
    for fn in ctx.get(r"^tensor::fftshift\("):
        kind = kind_of(fn)
        for r in range(1, top + 1):
            if kind == "dim":
                for d in (FORWARD, BACKWARD):
                    jobs.append(lambda fn=fn, r=r, d=d: shift(ctx, fn, r, d))
            else:
                jobs.append(lambda fn=fn, r=r, kind=kind: chain(ctx, fn, r, kind))
    ctx.par(jobs)
    # elements obtained for reading may be shared with other tensors
    import C12
    E = C12.load(ctx)
    for n, (f, u, src) in sorted(E.fn.items()):
        if re.match(r"^tensor::(fftw|fftw_inplace|fftshift)\(", f["dem"]):
            F = Fn(src, u, f, "vec")
            bad = list(E.const_writes(n))
            if not bad:
                ctx.ok(F, "elements", "no write through elements obtained for reading")
            for i, a, d, why in bad:
                ctx.verdict(F, "elements", REFUTED if d else UNK, "the elements read through %s, which may be shared, are %s" % (E.org[n].dem(a).replace("tensor::", ""), why), i.get("loc"))


def kind_of(fn):
    return "mask" if "Booleans" in fn.dem else "dim" if re.search(r"\blong\b", fn.dem) else "all"


def dft_call(w, c, n, e, F):
    """the transform a call plans: (transformed dimensions, repeated dimensions, in, out, sign) with dimensions (extent, in stride, out stride)"""
    name, a = e[1], e[2]

    def cint(x):
        x = untrunc(x)
        v = x.const() if isinstance(x, P) else None
        if v is None:
            raise Unknown("a rank that is not fixed")
        return int(v)
    rd = lambda ad: cell(w, c, ad, n)
    m = re.match(r"^fftw_plan_dft_([123])d$", name)
    if m or name == "fftw_plan_dft":
        if m:
            r = int(m.group(1))
            ns, a = [untrunc(x) for x in a[:r]], a[r:]
        else:
            r = cint(a[0])
            ns, a = [rd(a[1] + 4 * q) for q in range(r)], a[2:]
        dims, s = [], ONE
        for x in reversed(ns):
            dims.append((x, s, s))
            s = s * x
        return dims, [], a[0], a[1], a[2], a[3]
    if name == "fftw_plan_guru_dft":
        out = []
        for q in (0, 2):
            r = cint(a[q])
            out.append([tuple(rd(a[q + 1] + 12 * j + o) for o in (0, 4, 8)) for j in range(r)])
        return out[0], out[1], a[4], a[5], a[6], a[7]
    return None


def request(fn, kind, r, k, F, dim, mask):
    """the same for what the arguments ask for"""
    ft, lp, s = [], [], ONE
    for q in range(r):
        t = (dim(q), s, s)
        on = True if kind == "all" else q == k if kind == "dim" else bool_of(F, mask, q)
        if on is None:
            return None
        (ft if on else lp).append(t)
        s = s * dim(q)
    return ft, lp


def compare(got, want, F, cells):
    for what, g, x in (("transformed", got[0], want[0]), ("repeated", got[1], want[1])):
        v, d = same_set(g, x, F)
        if v is True:
            continue
        if any(bad_atoms(y, ("unk", "kx", "phi", "mphi", "carried")) for t in g for y in t):
            return UNK, "%s dimensions: %s" % (what, d)
        if any(bad_atoms(y, ("uninit",)) for t in g for y in t):
            return REFUTED, "%s dimensions (extent, strides): never set: %s" % (what, d)
        # entries of extent 1 say nothing
        t = told_apart(g, x, F, cells, ignore=lambda t: t[0] == 1)
        return (REFUTED if t else UNK), "%s dimensions (extent, strides): %s" % (what, t or d)
    return PROVED, "%d transformed, %d repeated" % (len(got[0]), len(got[1]))


def plan(ctx, fn, kind, r, k, raw):
    sig = fn.sig
    args = sig.args
    tag = "rank %d%s" % (r, "" if k is None else ", dimension %d" % k)
    if raw:
        dpos = len(args) - 2
        lens = {dpos: r}
        if kind == "mask":
            lens[dpos - 1] = r
        part = vecpart(lens, {2: k} if kind == "dim" else {})
        dvec = args[dpos].v
        mask = args[dpos - 1].v
        pin, pout = args[0].v, args[1].v
    else:
        base = ranked({0: r}, {1: k} if kind == "dim" else {})

        def preset(w, st):
            base["preset"](w, st)
            if kind == "mask":
                ad = args[1].v
                st.vecs[ad] = Vec(P.a("buf", ad), P.c(r), 1)
                st.facts = st.facts.add(ceq(P.a("vsize", ad) - r))
        part = dict(preset=preset, unroll=8, key=("fft", base["key"], kind))
        dvec = args[0].v + 8
        mask = args[1].v
    sign = args[-1].v
    dim = lambda q: P.a("ld", "i64", P.a("buf", dvec) + 8 * q)
    cells = [dim(q) for q in range(r)]
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return ctx.unk(fn, "plan", "%s: %s" % (tag, err))
    seen = 0
    worst_ = (PROVED, "", None)
    rank = {PROVED: 0, UNK: 1, REFUTED: 2}

    def note(v, d, loc):
        nonlocal worst_
        if rank[v] > rank[worst_[0]]:
            worst_ = (v, d, loc)
    inplace = "fftw_inplace" in fn.dem
    for c in cases:
        if infeasible(c.facts):
            continue
        if c.outcome != "ret":
            # refused although the arguments agree?
            if kind != "mask" or all(bool_of(c.facts, mask, q) is not None for q in range(r)):
                note(UNK, "an abort path", c.loc)
            continue
        seen += 1
        F = c.facts
        cs = CState(w, c)
        plans, done, dead, other = [], [], [], []
        for n, e in calls_at(c):
            if e[0] == "for":
                other.append("a loop")
            elif not isinstance(e[1], str):
                other.append("an indirect call")
            elif re.match(r"^fftw_plan_", e[1]):
                plans.append((n, e))
            elif e[1] == "fftw_execute":
                done.append((n, e))
            elif e[1] == "fftw_destroy_plan":
                dead.append((n, e))
            elif e[1].startswith("tensor::do_fftw("):
                plans.append((n, e))
            else:
                other.append(str(e[1])[:40])
        if other:
            note(UNK, "also does: %s" % ", ".join(other)[:120], c.loc)
            continue
        if len(plans) != 1:
            note(REFUTED, "%d transforms are planned" % len(plans), c.loc)
            continue
        n, e = plans[0]
        loc = e[3] if len(e) > 3 else c.loc
        if raw:
            inb, outb = pin, pout
        else:
            inb = w.vec(cs, args[0].v, 16).buf if inplace else P.a("buf", args[0].v)
            outb = inb if inplace else w.vec(cs, sig.sret, 16).buf
        want = request(fn, kind, r, k, F, dim, mask)
        if e[1].startswith("tensor::do_fftw("):
            a = e[2]
            kd = "mask" if "Booleans" in e[1] else "dim" if re.search(r"\blong\b", e[1]) else "all"
            dims_ok = a[-2] == dvec or not inplace and a[-2] == sig.sret + 8
            ok = kd == kind and dims_ok and (kind == "all" or kind == "dim" and untrunc(a[2]).const() == k or kind == "mask" and a[2] == mask)
            if not ok:
                known = kd != kind or kind == "dim" and untrunc(a[2]).const() is not None and untrunc(a[2]).const() != k
                note(REFUTED if known else UNK, "asks for %s" % ", ".join(show(x)[:40] for x in a[2:]), loc)
                continue
            got = (None, None, a[0], a[1], a[-1])
        else:
            try:
                got = dft_call(w, c, n, e, F)
            except Unknown as u:
                got = None
                note(UNK, str(u), loc)
                continue
            if got is None:
                note(UNK, "plan made by %s" % e[1], loc)
                continue
            h = [x for x in (done, dead) if len(x) != 1]
            if h or not done[0][0] > n or not dead[0][0] > done[0][0]:
                note(REFUTED, "the plan is executed %d times and released %d times" % (len(done), len(dead)), loc)
                continue
            if want is None:
                note(UNK, "which dimensions are transformed is not decided on the path", loc)
                continue
            v, d = compare(got, want, F, cells)
            note(v, d, loc)
            fl = untrunc(got[5])
            fl = fl.const() if isinstance(fl, P) else None
            if fl is None:
                note(UNK, "planner flags", loc)
            elif not int(fl) & 64:
                note(REFUTED, "planner flags %d let the planner overwrite both arrays before the transform" % fl, loc)
            elif int(fl) & 1:
                note(REFUTED, "planner flags %d let the transform destroy its input" % fl, loc)
        # elements
        for what, g, x in (("input", got[2], inb), ("output", got[3], outb)):
            if g != x:
                note(REFUTED if show(g) in (show(inb), show(outb)) or isinstance(g, P) and g.single() and g.single()[0] == "buf" else UNK, "the %s is %s, not %s" % (what, show(g)[:50], show(x)[:50]), loc)
        g = untrunc(got[4])
        if g != sign:
            flip = isinstance(g, P) and (g + sign).const() == 0 or isinstance(g, P) and g.const() is not None and F.decide(ceq(sign - g)) is not True
            if not (isinstance(g, P) and same(g, sign, F) is True):
                note(REFUTED if flip else UNK, "the direction is %s" % show(g)[:40], loc)
        if not raw and not inplace:
            v, d = dims_verdict(cs, sig.sret, cells, F)
            if v != PROVED:
                note(v, "dimensions of the result: %s" % d, c.loc)
            s = same(w.vec(cs, sig.sret, 16).size, prodof(cells), F)
            if s is not True:
                note(REFUTED if s is False else UNK, "number of elements", c.loc)
    if not seen:
        note(REFUTED, "every path aborts", None)
    ctx.verdict(fn, "plan", worst_[0], "%s: %s" % (tag, worst_[1] or "%d paths" % seen), worst_[2])


def prodof(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def chain(ctx, fn, r, kind):
    """fftshift over several dimensions is one shift along each of them"""
    sig = fn.sig
    base = ranked({0: r})
    mask = sig.args[1].v

    def preset(w, st):
        base["preset"](w, st)
        if kind == "mask":
            st.vecs[mask] = Vec(P.a("buf", mask), P.c(r), 1)
            st.facts = st.facts.add(ceq(P.a("vsize", mask) - r))
    w, cases, err = ctx.summary(fn, None, preset=preset, unroll=8, key=("fftc", r, kind))
    tag = "rank %d" % r
    if cases is None:
        return ctx.unk(fn, "shift", "%s: %s" % (tag, err))
    n, res = 0, (PROVED, "", None)
    for c in cases:
        if infeasible(c.facts) or c.outcome != "ret":
            continue
        n += 1
        src = sig.args[0].v
        nodes = Nodes({src: ("in",)})
        bad = None
        for e in c.eff:
            if e[0] == "call" and isinstance(e[1], str):
                m = re.match(r"^tensor::fftshift\(.*, long, int\)$", e[1])
                if m:
                    a = e[2]
                    k = untrunc(a[2])
                    nodes.node[a[0]] = ("shift", nodes.get(a[1]), k.const(), a[3] == sig.args[-1].v or show(a[3]))
                else:
                    bad = e[1]
            elif e[0] == "for":
                bad = "a loop"
            else:
                nodes.step(e)
        t, ks, dirs = nodes.get(sig.sret), [], []
        while t[0] == "shift":
            ks.append(t[2])
            dirs.append(t[3])
            t = t[1]
        want = [q for q in range(r) if kind == "all" or bool_of(c.facts, mask, q)]
        und = kind == "mask" and any(bool_of(c.facts, mask, q) is None for q in range(r))
        free = [q for q in range(r) if kind == "mask" and not any(("[%s]" % show(P.a("buf", mask) + q)) in show(x) for x in c.facts.conds)]
        if free and not bad and t == ("in",) and None not in ks:
            v = (REFUTED, "whether dimension %d is shifted does not depend on what is asked for it" % free[0], c.loc)
        elif bad or t != ("in",) or und or None in ks:
            v = (UNK, bad or "result is %r" % (t,), c.loc)
        elif sorted(ks) != want:
            v = (REFUTED, "shifts dimensions %s, requested are %s" % (ks, want), c.loc)
        elif any(d is not True for d in dirs):
            v = (REFUTED, "direction %s" % dirs, c.loc)
        else:
            v = (PROVED, "", c.loc)
        if {PROVED: 0, UNK: 1, REFUTED: 2}[v[0]] > {PROVED: 0, UNK: 1, REFUTED: 2}[res[0]]:
            res = v
    if not n:
        res = (REFUTED, "every path aborts", None)
    ctx.verdict(fn, "shift", res[0], "%s: %s" % (tag, res[1] or "%d paths" % n), res[2])


# ---------------------------------------------------------------- shift along one dimension
class Views:
    """block copies between tensors written through views"""

    def __init__(self):
        self.range, self.view, self.copies = {}, {}, []

    def step(self, e):
        if e[0] != "call":
            return True
        name, a = e[1], e[2]
        if not isinstance(name, str):
            return True  # destructor of a range
        m = re.match(r"^tensor::(Full|Step|Single)Range::\1Range\(", name)
        if m:
            self.range[a[0]] = (m.group(1),) + tuple(a[1:])
            return True
        m = re.match(r"^tensor::Tensor<.*>::(operator\(\)|at)\(tensor::PRange", name)
        if m:
            rs = [self.range.get(x) for x in a[2:]]
            if None in rs:
                return False
            self.view[a[0]] = (a[1], rs)
            return True
        if re.match(r"^tensor::Tensor<.*>::mutable_view::operator=\(tensor::Tensor<.*>::view const&\)$", name):
            d, s = self.view.get(a[0]), self.view.get(a[1])
            if d is None or s is None:
                return False
            self.copies.append((d, s, e[3] if len(e) > 3 else None))
            return True
        return False


def shift(ctx, fn, r, direction):
    sig = fn.sig
    out = []
    for k in range(r):
        out.append(shift1(ctx, fn, r, k, direction))
    rank = {PROVED: 0, UNK: 1, REFUTED: 2}
    x = max(out, key=lambda v: rank[v[0]])
    ctx.verdict(fn, "shift", x[0], "rank %d, %s: %s" % (r, "forward" if direction == FORWARD else "backward", x[1]), x[2])


def shift1(ctx, fn, r, k, direction):
    sig = fn.sig
    src = sig.args[0].v
    part = ranked({0: r}, {1: k, 2: direction})
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return (UNK, err, None)
    dim = lambda q: P.a("ld", "i64", P.a("buf", src + 8) + 8 * q)
    N = dim(k)
    nid = list(N.atoms())[0]
    got, ret = {}, 0
    und = None
    tries = set(range(1, 10))
    for c in cases:
        for x in c.facts.conds:
            if x[0] in ("ge", "eq", "ne") and nid in x[1].atoms() and len(x[1].t) <= 2:
                k0 = abs(x[1].t.get((), 0))
                tries |= {int(k0) + j for j in (-2, -1, 0, 1, 2)}
    tries = sorted(v for v in tries if 1 <= v <= 4000)
    for c in cases:
        F = c.facts
        if infeasible(F):
            continue
        cs = CState(w, c)
        # the extents of the dimension this path is taken for, tried one by one with the other extents left symbolic
        sizes = []
        for v in tries:
            if any(truth(x, {nid: v}) is False for x in F.conds):
                continue
            sizes.append(v)
        if not sizes:
            continue
        if c.outcome != "ret":
            continue
        ret += 1
        vs = Views()
        nodes = Nodes({src: ("in",)})
        ok = True
        for e in c.eff:
            if e[0] == "for":
                ok = False
            elif e[0] == "call":
                ok = vs.step(e) and ok
            else:
                if e[0] == "vnew":
                    nodes.node[e[3]] = ("new", e[3])
                nodes.step(e)
        if not ok:
            und = (UNK, "an operation outside the view algebra", c.loc)
            continue
        d = dims_verdict(cs, sig.sret, [dim(q) for q in range(r)], F)
        if d[0] != PROVED:
            und = und or (d[0], "dimensions of the result: %s" % d[1], c.loc)
            if d[0] == REFUTED:
                return und
        pb, pa = prodof([dim(q) for q in range(k)]), prodof([dim(q) for q in range(k + 1, r)])
        for (da, dr), (sa, sr), loc in vs.copies:
            for x in (da, sa):
                d = dims_verdict(cs, x, [pb, N, pa], F)
                if d[0] == REFUTED:
                    return (REFUTED, "rank %d, dimension %d: a block is taken in the wrong shape, %s" % (r, k, d[1]), loc)
                if d[0] != PROVED:
                    und = und or (d[0], "shape of a block: %s" % d[1], loc)
        t = nodes.get(sig.sret)
        for v in sizes:
            z = {nid: v}
            if t == ("in",) and not vs.copies:
                perm = list(range(v))
            elif t[0] == "new":
                perm = [None] * v
                for (da, dr), (sa, sr), loc in vs.copies:
                    if nodes.get(da) != t or nodes.get(sa) != ("in",) or len(dr) != 3 or len(sr) != 3:
                        und = (UNK, "copies between other tensors", loc)
                        perm = None
                        break
                    if not all(x[0] == "Full" for x in (dr[0], dr[2], sr[0], sr[2])):
                        und = (UNK, "partial copies of the other dimensions", loc)
                        perm = None
                        break
                    try:
                        di, si = [rng(x, v, z) for x in (dr[1], sr[1])]
                    except ValueError as x:
                        if str(x).startswith("index"):
                            return (REFUTED, "extent %d: %s" % (v, x), loc)
                        und = (UNK, str(x), loc)
                        perm = None
                        break
                    if len(di) != len(si):
                        return (REFUTED, "extent %d: %d places receive %d elements" % (v, len(di), len(si)), loc)
                    for a, b in zip(di, si):
                        perm[a] = b
                if perm is None:
                    break
            else:
                und = (UNK, "result is %r" % (t,), c.loc)
                break
            m = (v + 1) // 2 if direction == FORWARD else v // 2
            want = [(j + m) % v for j in range(v)]
            got.setdefault(v, []).append(1)
            if perm != want:
                return (REFUTED, "dimension %d of extent %d: element j of the result is element %s of the input, required %s" % (k, v, perm, want), c.loc)
            # general extent
    if not ret:
        return (REFUTED, "every path aborts", None)
    miss = [v for v in tries if v not in got]
    if und:
        return und
    if miss:
        return (REFUTED, "no result for extent %s of dimension %d" % (miss, k), None)
    g = general(ctx, fn, w, cases, r, k, direction, dim)
    return g


def rng(x, n, z):
    def val(p):
        v = value(p, z)
        if v is None:
            raise ValueError("a bound that depends on other extents")
        return v
    if x[0] == "Full":
        return list(range(n))
    if x[0] == "Single":
        a = [val(x[1])]
    else:
        s, e, st = val(x[1]), val(x[2]), val(x[3]) if len(x) > 3 else 1
        s, e = s + (n if s < 0 else 0), e + (n if e < 0 else 0)
        if st == 0:
            raise ValueError("step")
        a = list(range(s, e + (1 if st > 0 else -1), st))
    for q in a:
        if not 0 <= q < n:
            raise ValueError("index %d outside the dimension" % q)
    return a


def general(ctx, fn, w, cases, r, k, direction, dim):
    """every extent: two blocks [0, a-1] <- [m, N-1] and [a, N-1] <- [0, m-1] with a = N - m, extent written 2h or 2h+1"""
    N = dim(k)
    nid = list(N.atoms())[0]
    h = P.a("iv", "h")
    for c in cases:
        if infeasible(c.facts) or c.outcome != "ret":
            continue
        vs = Views()
        for e in c.eff:
            vs.step(e)
        if not vs.copies:
            if c.facts.decide(ceq(N - 1)) is not True and not c.facts.eq0(N - 1):
                return (UNK, "an unshifted path", c.loc)
            continue
        if len(vs.copies) != 2:
            return (UNK, "%d block copies" % len(vs.copies), c.loc)
        for odd in (0, 1):
            z = {nid: h.scale(2) + odd}
            F = Facts().add(cge(h - 1))
            cc = [F.decide(refold(x, z, h)) for x in c.facts.conds]
            if any(x is False for x in cc):
                continue
            m = h + odd if direction == FORWARD else h
            n = h.scale(2) + odd
            blocks = []
            for (da, dr), (sa, sr), loc in vs.copies:
                b = []
                for x in (dr[1], sr[1]):
                    if x[0] != "Step" or x[3].const() != 1:
                        return (UNK, "block form", loc)
                    b += [half(subst(x[1], z), h), half(subst(x[2], z), h)]
                blocks.append(tuple(b))
            want = [(ZERO, n - m - 1, m, n - 1), (n - m, n - 1, ZERO, m - 1)]
            v, d = same_set(blocks, want, F)
            if v is not True:
                return (UNK, "blocks %s" % d, c.loc)
    return (PROVED, "every extent", None)


def refold(c, z, h):
    k = c[0]
    if k in ("ge", "eq", "ne"):
        q = half(subst(c[1], z), h)
        return cge(q) if k == "ge" else ceq(q) if k == "eq" else cne(q)
    return c


def half(x, h):
    """div(2h + c, 2) = h + floor(c/2), mod(2h + c, 2) = c mod 2 for h >= 1 and small c"""
    if isinstance(x, tuple):
        return tuple(half(y, h) if isinstance(y, (tuple, P)) else y for y in x)
    z = {}
    for i in x.atoms():
        a = atom(i)
        if a[0] in ("div", "mod", "udiv", "urem", "sdiv", "srem") and isinstance(a[1], P):
            q = half(a[1], h)
            two = a[2] if not isinstance(a[2], P) else a[2].const()
            if two == 2:
                c = (q - h.scale(2)).const()
                if c is not None and c >= -2:
                    z[i] = h + (int(c) // 2) if a[0] in ("div", "udiv", "sdiv") else P.c(int(c) % 2)
    return subst(x, z) if z else x
