"""Where pointers come from, per function (flow-insensitive on SSA, flow-sensitive through local slots by union).

An origin is a pair (region, byte offset or None); a region is
  ("arg", n)          the object parameter n points at (its own bytes)
  ("local", id)       a stack object
  ("acc", kind, id)   element storage obtained by call `id` of a Vector accessor; kind "mut" or "const"
  ("ret", id)         the result of another call
  ("glob", name)      a global
  ("ptrfrom", r)      memory behind a pointer loaded from region r
"""
import re
from walk import const_args

ACC = re.compile(r"^tensor::(Vector|RefPointer)<(.*)>::(begin|end|at|begin_const|end_const|operator\[\])\(([^)]*)\)( const)?$")
VEC = re.compile(r"^tensor::Vector<(.*)>::(~?\w+|operator=|operator\[\])\((.*)\)( const)?$")


class Origins:
    def __init__(self, f, unit):
        self.f, self.u = f, unit
        self.ins, self.order, self.at = {}, [], {}
        self.blocks = {b["id"]: b for b in f["blocks"]}
        for b in f["blocks"]:
            for n, i in enumerate(b["ins"]):
                self.ins[i["id"]] = i
                self.order.append((b["id"], i))
                self.at[i["id"]] = (b["id"], n)
        self.o = {}
        self.slots = {}
        for n, a in enumerate(f["args"]):
            if a["ty"] == "ptr":
                self.o[a["id"]] = {(("arg", n), 0)}
        self.solve()

    def of(self, x):
        if isinstance(x, int):
            return self.o.get(x, frozenset())
        if isinstance(x, list) and x and x[0] == "g":
            return {(("glob", x[1]), 0)}
        return frozenset()

    def regions(self, x):
        return {r for r, _ in self.of(x)}

    def dem(self, i):
        c = i.get("callee")
        return self.u.dem(c) if c else None

    def solve(self):
        changed = True
        n = 0
        while changed and n < 60:
            changed = False
            n += 1
            for bid, i in self.order:
                op = i["op"]
                new = None
                if op == "alloca":
                    new = {(("local", i["id"]), 0)}
                elif op == "gep":
                    k = i.get("off") if not i.get("vo") else None
                    new = {(r, o + k if o is not None and k is not None else None) for r, o in self.of(i["ops"][0])}
                elif op in ("bitcast", "addrspacecast", "freeze"):
                    new = set(self.of(i["ops"][0]))
                elif op == "phi":
                    new = set()
                    for pb, v in i["ops"]:
                        new |= set(self.of(v))
                    if len(new) > 12:       # pointer moved in a loop
                        new = {(r, None) for r, o in new}
                elif op == "select":
                    new = set(self.of(i["ops"][1])) | set(self.of(i["ops"][2]))
                elif op == "load" and i.get("ty") == "ptr":
                    new = set()
                    for r, o in self.of(i["ops"][0]):
                        got = self.slots.get((r, o))
                        if r[0] == "local":
                            new |= got or set()
                        else:
                            new |= got or set()
                            new.add((("ptrfrom", r) if r[0] != "ptrfrom" else r, None))
                elif op == "store":
                    v, a = i["ops"][0], i["ops"][1]
                    vo = set(self.of(v))
                    if vo:
                        for k in self.of(a):
                            s = self.slots.setdefault(k, set())
                            if not vo <= s:
                                s |= vo
                                changed = True
                elif op == "call" and i.get("ty") == "ptr":
                    new = self.call_origin(i)
                elif op == "inttoptr":
                    new = {(("ret", i["id"]), 0)}
                if new:
                    old = self.o.get(i["id"], set())
                    if op == "phi" or op == "gep":
                        lost = {r for r, o in old | new if o is None}
                        new = {(r, None if r in lost else o) for r, o in old | new}
                        if len(new) > 24:
                            new = {(r, None) for r, o in new}
                        if new != old:
                            self.o[i["id"]] = new
                            changed = True
                    elif new - old:
                        self.o[i["id"]] = old | new
                        changed = True

    def call_origin(self, i):
        d = self.dem(i)
        if d is None:
            return {(("ret", i["id"]), 0)}
        m = ACC.match(d)
        if m:
            return {(("acc", "const" if m.group(5) or "const" in m.group(3) else "mut", i["id"]), 0 if not m.group(4) else None)}
        if "::operator=(" in d or re.match(r"^(std::)?(memcpy|memmove|memset|strcpy|strcat)", d):
            return set(self.of(i["ops"][0]))
        return {(("ret", i["id"]), 0)}

    def acc_object(self, id):
        """(region, offset) pairs of the Vector an accessor was applied to"""
        return self.of(self.ins[id]["ops"][0])

    def accessors(self):
        return [i for b, i in self.order if i["op"] == "call" and any(r == ("acc", "mut", i["id"]) or r == ("acc", "const", i["id"]) for r in self.regions(i["id"]))]

    # ------------------------------------------------------------ control flow
    def reach(self, src, dst, stop):
        """can control pass from just after instruction src to instruction dst without executing one of stop?"""
        b0, n0 = self.at[src]
        bd, nd = self.at[dst]
        stops = {}
        for s in stop:
            b, n = self.at[s]
            stops.setdefault(b, []).append(n)

        def scan(b, lo):
            """first event in block b from position lo: 'hit', 'stop' or None"""
            c = [n for n in stops.get(b, ()) if n >= lo]
            first = min(c) if c else None
            if b == bd and nd >= lo and (first is None or nd <= first):
                return "hit"
            return "stop" if first is not None else None
        r = scan(b0, n0 + 1)
        if r:
            return r == "hit"
        seen = set()
        work = list(self.blocks[b0]["succ"])
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            r = scan(b, 0)
            if r == "hit":
                return True
            if r == "stop":
                continue
            work += self.blocks[b]["succ"]
        return False


# ------------------------------------------------------------ what a call may write through its pointer arguments
READS = [       # (callee, argument positions it only reads)
    (r"^cblas_[dz]gemm$", {6, 7, 9, 11}), (r"^cblas_[dz]gemv$", {4, 5, 7, 9}),
    (r"^llvm\.mem(cpy|move)\.", {1}), (r"^(memcpy|memmove)$", {1}), (r"^memcmp$", {0, 1}), (r"^strlen$", {0}), (r"^str(n?cmp|chr|tol|tod|toul)$", {0, 1}),
    (r"(^|[ :])std::sort<", {2}), (r"^llvm\.(dbg|lifetime|assume|experimental)", {0, 1, 2, 3}), (r"^printf$", set(range(20))),
    (r"^__assert_fail$", {0, 1, 2, 3}), (r"^operator delete", {0}), (r"^free$", {0}),
    (r"^[a-z]+_$", "fortran"),
]
WRITES = [      # (callee, argument positions it writes)
    (r"^cblas_[dz]gemm$", {12}), (r"^cblas_[dz]gemv$", {10}), (r"^llvm\.mem(cpy|move|set)\.", {0}), (r"^(memcpy|memmove|memset)$", {0}),
    (r"(^|[ :])std::sort<", {0, 1}),
    (r"^[dz]geev_$", {3, 5, 6, 7, 9}), (r"^[dz]gesv_$", {2, 4, 5, 7}), (r"^[dz]gesvd_$", {3, 5, 6, 8}), (r"^(dsyev|zheev)_$", {3, 5, 6, 7}),
]


def fftw_plan(d, i, k):
    """complex-to-complex plans: ... in, out, sign, flags.  The output is written when the plan runs; the input is left alone
    only if planning merely estimates and the plan may not destroy its input"""
    n = len(i["ops"])
    pin, pout = (n - 4, n - 3) if "many" not in d else (3, 7)
    if k == pout:
        return True
    if k == pin:
        fl = i["ops"][-1]
        if isinstance(fl, list) and fl[0] == "ci":
            return not (fl[1] & 64 and not fl[1] & 1)
        return None
    return False


def tgt(i):
    return i.get("alias") or i.get("callee")


class Effects:
    """which pointer parameters each function may write through, over all translation units"""

    def __init__(self, units):
        self.units = units
        self.fn = {}
        for src, u in units.items():
            for f in u.j["functions"]:
                if f["blocks"] and f["name"] not in self.fn:
                    self.fn[f["name"]] = (f, u, src)
        self.org = {n: Origins(f, u) for n, (f, u, src) in self.fn.items()}
        for o in self.org.values():     # complete-object constructors may exist only as aliases of the base-object ones
            for b, i in o.order:
                c = i.get("callee")
                if c and c not in self.fn:
                    for x, y in (("C1E", "C2E"), ("C2E", "C1E"), ("D1Ev", "D2Ev"), ("D2Ev", "D1Ev")):
                        k = c.rfind(x)
                        if k >= 0 and c[:k] + y + c[k + 3 + (x[0] == "D"):] in self.fn:
                            i["alias"] = c[:k] + y + c[k + 3 + (x[0] == "D"):]
        self.w = {n: {} for n in self.fn}        # name -> {arg index: (definite?, instruction, why)}
        ch = True
        while ch:
            ch = False
            for n in self.fn:
                if self.scan(n):
                    ch = True

    def written(self, name, d, i, k):
        """does call i (callee name, demangled d) write through argument k?  True / False / None"""
        if d is None:
            # a virtual call: every overrider declares the parameter the same way and is analysed itself
            return False
        m = VEC.match(d)
        if m or d.startswith("tensor::RefPointer<"):
            return k == 0 and not d.endswith(" const")
        if name in self.w:
            x = self.w[name].get(k)
            return False if x is None else (True if x[0] else None)
        if re.match(r"^fftw_plan_(dft|dft_[123]d|guru_dft|guru64_dft|many_dft)$", d) and len(i["ops"]) >= 5:
            return fftw_plan(d, i, k)
        for rx, pos in WRITES:
            if re.search(rx, d) and k in pos:
                return True
        for rx, pos in READS:
            if re.search(rx, d):
                if pos == "fortran":
                    return None
                if k in pos:
                    return False
        if "(" in d:
            fl = const_args(d, len(i["ops"]), "sret" in i)
            if k < len(fl) and fl[k]:
                return False
            return None
        return None

    def scan(self, n):
        f, u, src = self.fn[n]
        o = self.org[n]
        w = self.w[n]
        ch = False

        def mark(r, definite, i, why):
            nonlocal ch
            while r[0] == "ptrfrom":
                r = r[1]
                if r[0] == "arg":
                    return              # behind a pointer member: not the object's own state
            if r[0] == "acc":
                if r[1] == "const":
                    for r2, _ in o.acc_object(r[2]):
                        mark(r2, definite, i, why)
                return
            if r[0] == "arg":
                old = w.get(r[1])
                if old is None or definite and not old[0]:
                    w[r[1]] = (definite, i, why)
                    ch = True
        for bid, i in o.order:
            if i["op"] == "store":
                rs = o.regions(i["ops"][1])
                for r in rs:
                    mark(r, True, i, "stores through it")
            elif i["op"] in ("atomicrmw", "cmpxchg"):
                for r in o.regions(i["ops"][0]):
                    mark(r, True, i, "stores through it")
            elif i["op"] == "call":
                c = tgt(i)
                d = o.dem(i)
                for k, x in enumerate(i["ops"]):
                    rs = o.regions(x)
                    if not rs:
                        continue
                    r = self.written(c, d, i, k)
                    if r is False:
                        continue
                    for g in rs:
                        mark(g, r is True, i, "passes it to %s, which writes it" % (d or "an unknown function"))
        return ch

    def const_writes(self, n):
        """writes through element pointers that were obtained for reading: (instruction, accessor, definite, what)"""
        f, u, src = self.fn[n]
        o = self.org[n]
        for bid, i in o.order:
            if i["op"] == "store":
                for r in o.regions(i["ops"][1]):
                    if r[0] == "acc" and r[1] == "const":
                        yield i, o.ins[r[2]], True, "stored through"
            elif i["op"] == "call":
                d = o.dem(i)
                for k, x in enumerate(i["ops"]):
                    for r in o.regions(x):
                        if r[0] == "acc" and r[1] == "const":
                            v = self.written(tgt(i), d, i, k)
                            if v is not False:
                                yield i, o.ins[r[2]], v is True, "passed to %s, which writes it" % (d or "an unknown function")

    # ------------------------------------------------------------ stale pointers
    def shares(self):
        """function -> {((src arg, off), (dst arg, off))}: the callee leaves dst holding the block of src"""
        if hasattr(self, "_shares"):
            return self._shares
        self._shares = sh = {n: set() for n in self.fn}
        ch = True
        while ch:
            ch = False
            for n in self.fn:
                o = self.org[n]
                for i, src, dst in self.copies(n):
                    for s in src:
                        for d in dst:
                            if s[0][0] == "arg" and d[0][0] == "arg" and s[1] is not None and d[1] is not None:
                                k = ((s[0][1], s[1]), (d[0][1], d[1]))
                                if k not in sh[n]:
                                    sh[n].add(k)
                                    ch = True
        return sh

    def copies(self, n):
        """(call, origins of the source handle, origins of the destination handle)"""
        o = self.org[n]
        for b, i in o.order:
            if i["op"] != "call":
                continue
            d = o.dem(i)
            if d is None:
                continue
            m = VEC.match(d)
            if m and (m.group(2) == "Vector" or m.group(2) == "operator=") and m.group(3).endswith("const&") and "Vector<" in m.group(3):
                yield i, o.of(i["ops"][1]), o.of(i["ops"][0])
            elif tgt(i) in self._shares:
                for (sa, so), (da, do) in self._shares[tgt(i)]:
                    if sa < len(i["ops"]) and da < len(i["ops"]):
                        yield (i, {(r, x + so if x is not None else None) for r, x in o.of(i["ops"][sa])},
                               {(r, x + do if x is not None else None) for r, x in o.of(i["ops"][da])})

    def kills(self, n):
        """(call, origins of the handle that gives up its block, how, on every path of the callee?)"""
        o = self.org[n]
        K = self.killed()
        for b, i in o.order:
            if i["op"] != "call":
                continue
            d = o.dem(i)
            if d is None:
                continue
            m = VEC.match(d)
            if m and m.group(2) in ("operator=", "resize") or m and m.group(2).startswith("~"):
                yield i, o.of(i["ops"][0]), {"operator=": "assigned", "resize": "resized"}.get(m.group(2), "destroyed"), True
            elif tgt(i) in K:
                for (a, off), (how, always) in K[tgt(i)].items():
                    if a < len(i["ops"]):
                        yield i, {(r, x + off if x is not None else None) for r, x in o.of(i["ops"][a])}, how, always

    def killed(self):
        if hasattr(self, "_killed"):
            return self._killed
        self._killed = K = {n: {} for n in self.fn}
        ch = True
        while ch:
            ch = False
            for n in self.fn:
                o = self.org[n]
                entry = self.fn[n][0]["blocks"][0]["id"]
                for i, h, how, always in self.kills(n):
                    for r, off in h:
                        if r[0] == "arg" and off is not None:
                            old = K[n].get((r[1], off))
                            always_ = always and len(h) == 1 and o.at[i["id"]][0] == entry
                            if old is None or always_ and not old[1]:
                                K[n][(r[1], off)] = (how, always_)
                                ch = True
        return K

    def uses(self, n):
        """(instruction, element-pointer regions it dereferences, 'write' or 'read', definite)"""
        o = self.org[n]
        for b, i in o.order:
            if i["op"] == "store":
                rs = {r for r in o.regions(i["ops"][1]) if r[0] == "acc"}
                if rs:
                    yield i, rs, "write", True
            elif i["op"] == "load":
                rs = {r for r in o.regions(i["ops"][0]) if r[0] == "acc"}
                if rs:
                    yield i, rs, "read", True
            elif i["op"] == "call":
                d = o.dem(i)
                if d and (d.startswith("llvm.lifetime") or d.startswith("llvm.dbg")):
                    continue
                for k, x in enumerate(i["ops"]):
                    rs = {r for r in o.regions(x) if r[0] == "acc"}
                    if rs:
                        v = self.written(tgt(i), d, i, k)
                        yield i, rs, "read" if v is False else "write", v is not None

    def stale(self, n):
        self.shares()
        o = self.org[n]
        acc = o.accessors()
        if not acc:
            return
        uses = list(self.uses(n))
        cop = list(self.copies(n))
        kill = list(self.kills(n))           # (call, handle origins, what, always)
        for a in acc:
            X = o.acc_object(a["id"])
            mine = [(u, rs, kind, de) for u, rs, kind, de in uses if any(r[2] == a["id"] for r in rs)]
            if not mine:
                continue
            mut = ("acc", "mut", a["id"]) in o.regions(a["id"])

            def same(h):
                s = {x for x in h if x in X and x[1] is not None}
                if not s:
                    return None
                return len(h) == 1 and len(X) == 1
            for c, hs, what, always in kill:
                d = same(hs)
                d = d and always if d is not None else None
                if d is None or not o.reach(a["id"], c["id"], [a["id"]]):
                    continue
                for u, rs, kind, de in mine:
                    if u is c:
                        continue
                    if o.reach(c["id"], u["id"], [r[2] for r in rs]):
                        yield a, c, u, "an element pointer is used after the object it came from was %s" % what, d and len(rs) == 1 and (de or kind == "read")
            if not mut:
                continue
            for c, src, dst in cop:
                d = same(src)
                if d is None or any(x in X for x in dst) or not o.reach(a["id"], c["id"], [a["id"]]):
                    continue
                end = [i["id"] for i, h, _, _ in kill if any(x in dst for x in h)] + [b["id"] for b in acc if any(x in dst for x in o.acc_object(b["id"]))]
                for u, rs, kind, de in mine:
                    if kind != "write" or u is c:
                        continue
                    if o.reach(c["id"], u["id"], [r[2] for r in rs] + end):
                        # another handle on the destination may have been dropped or re-made in between
                        yield a, c, u, "elements are written through a pointer taken before the object was copied: the copy changes too", d and de and len(rs) == 1 and len(dst) == 1
