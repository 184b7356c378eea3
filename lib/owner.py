"""Ownership of memory and other resources, path by path.

Every function is explored over abstract states: what each pointer designates (an allocation made here, a local object, a parameter,
the initial content of a field, null) and whether each allocation or parameter has been released, handed on, or is still held.
Branches on null and repeated conditions are followed exactly, so that `if (p) q = new ...; ...; delete q` is one protocol and not four.
Calls use the summaries of their callees: which parameters (or fields of parameters) are released, kept (stored in an object that outlives
the call) or returned, and which fresh allocations come back through the result or through an output parameter.
"""
import re
from collections import defaultdict

ALLOC = [(re.compile(r), k) for r, k in (
    (r"^_Znwm", "new"), (r"^_Znam", "new[]"), (r"^(malloc|calloc|strdup|strndup|realpath|backtrace_symbols|get_current_dir_name)$", "malloc"),
    (r"^fftwf?_malloc$", "fftw_malloc"), (r"^fftw_alloc_", "fftw_malloc"), (r"^fftw_plan_", "fftw plan"), (r"^(fopen|fdopen|tmpfile)$", "fopen"), (r"^popen$", "popen"),
    (r"^opendir$", "opendir"), (r"^mmap$", "mmap"))]
FREE = [(re.compile(r), k) for r, k in (
    (r"^_ZdlPv", "new"), (r"^_ZdaPv", "new[]"), (r"^free$", "malloc"), (r"^fftw_free$", "fftw_malloc"), (r"^fftw_destroy_plan$", "fftw plan"),
    (r"^fclose$", "fopen"), (r"^pclose$", "popen"), (r"^closedir$", "opendir"), (r"^munmap$", "mmap"))]
HOW = {"new": "new", "new[]": "new[]", "malloc": "malloc", "fftw_malloc": "fftw_malloc", "fftw plan": "fftw_plan_...", "fopen": "fopen", "popen": "popen", "opendir": "opendir", "mmap": "mmap"}
REL = {"new": "delete", "new[]": "delete[]", "malloc": "free", "fftw_malloc": "fftw_free", "fftw plan": "fftw_destroy_plan", "fopen": "fclose", "popen": "pclose", "opendir": "closedir", "mmap": "munmap"}
MAYFAIL = {"malloc", "fopen", "popen", "opendir", "fftw_malloc", "fftw plan"}
CAP = 6000


def kind_of(table, name):
    for r, k in table:
        if r.match(name or ""):
            return k
    return None


class Summary:
    """effects on parameters; a parameter place is (n, None) for the pointer itself or (n, off) for the pointer in its field"""

    def __init__(self):
        self.frees = {}     # place -> (always, kind)
        self.keeps = {}     # param -> set of (dst param or None, off or None)
        self.rets = set()   # ("fresh", kind) | ("arg", n, off) | ("other",)
        self.outs = {}      # (dst param, off) -> kind of fresh allocation stored there on every path
        self.nulls = set()  # (dst param, off) set to null on every path
        self.into = set()   # (param, class, off): the pointer becomes a member of an object of the class
        self.cases = None   # the different ways it returns, when they matter: (result, fresh outputs, nulls)
        self.noreturn = False

    def key(self):
        return (tuple(sorted(self.frees.items(), key=str)), tuple(sorted((k, tuple(sorted(v, key=str))) for k, v in self.keeps.items())),
                tuple(sorted(self.rets, key=str)), tuple(sorted(self.outs.items(), key=str)), tuple(sorted(self.nulls)), self.noreturn, self.cases, tuple(sorted(self.into)))


class State:
    __slots__ = ("env", "mem", "status", "null", "cond")

    def __init__(self):
        self.env, self.mem, self.status, self.null, self.cond = {}, {}, {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.mem, s.status, s.null, s.cond = dict(self.env), dict(self.mem), dict(self.status), dict(self.null), dict(self.cond)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.status.items()), frozenset(self.null.items()), frozenset(self.cond.items()))


NULL = (("null",), 0)
OTHER = (("?",), None)


class World:
    def __init__(self, units):
        self.fn = {}
        self.vt = {}
        self.vclass = {}
        slots = set()
        for src, u in units.items():
            for f in u.j["functions"]:
                if f["blocks"] and f["name"] not in self.fn:
                    self.fn[f["name"]] = (f, u, src)
            for g in u.j["globals"]:
                if g[0].startswith("_ZTV") and len(g) > 4:
                    self.vtable(g, slots)
        for g, ds in self.vt.items():
            d = self.fn[ds[0]][0]["dem"] if ds[0] in self.fn else ""
            if "::~" in d:
                self.vclass[g] = d[:d.rfind("::~")]
        # the place of the deleting destructor, if all classes of the library agree on it
        self.d0 = slots.pop() if len(slots) == 1 else None
        self.sum = {n: Summary() for n in self.fn}
        self.callers = defaultdict(set)
        for n, (f, u, src) in self.fn.items():
            for b in f["blocks"]:
                for i in b["ins"]:
                    if i["op"] == "call" and i.get("callee"):
                        self.callers[self.resolve(i["callee"])].add(n)
        self.results = {}
        self.given = {}     # (class, off) -> (function, kind, place): memory obtained there is put into the member
        todo = set(self.fn)
        rounds = 0
        while todo and rounds < 12:
            rounds += 1
            nxt = set()
            for n in sorted(todo):
                r = Explorer(self, n)
                r.run()
                old = self.sum[n].key()
                self.results[n] = r
                self.sum[n] = r.summary()
                if self.sum[n].key() != old:
                    nxt |= self.callers[n]
            todo = nxt

    def vtable(self, g, slots):
        if not re.match(r"^_ZTVN?(St)?(6tensor|6linalg|3sdf|4jobs)", g[0]):
            return
        for t in g[4][1:] if g[4][0] == "cagg" else []:
            if t[0] != "cagg":
                continue
            for k, e in enumerate(t[1:]):
                if e[0] == "fn" and re.search(r"D0Ev$", e[1]):
                    slots.add((k - 2) * 8)
                    self.vt.setdefault(g[0], []).append(e[1])

    def resolve(self, c):
        if c in self.fn or c is None:
            return c
        for x, y in (("C1E", "C2E"), ("C2E", "C1E"), ("D1Ev", "D2Ev"), ("D2Ev", "D1Ev")):
            k = c.rfind(x)
            if k >= 0:
                d = c[:k] + y + c[k + len(x):]
                if d in self.fn:
                    return d
        return c


def addoff(v, k):
    r, o = v
    return (r, o + k if o is not None and k is not None else None)


class Explorer:
    def __init__(self, W, name):
        self.W, self.name = W, name
        self.f, self.u, self.src = W.fn[name]
        self.blocks = {b["id"]: b for b in self.f["blocks"]}
        self.ins = {i["id"]: i for b in self.f["blocks"] for i in b["ins"]}
        self.args = {a["id"]: n for n, a in enumerate(self.f["args"])}
        self.found = {}         # (what, loc) -> (definite, text)
        self.sites = {}
        self.exits = []
        self.offs = {}
        self.loaded = set()
        self.overflow = False
        self.frees = 0
        self.into = set()
        m = re.match(r"(.*?)(\w+)((<.*>)?)::\2\(", self.f["dem"])
        self.ctor_of = self.f["dem"][:m.end(3)] if m and self.f["args"] and not "sret" in self.f["args"][0] else None

    # ------------------------------------------------------------ liveness of SSA values, to keep states few
    def liveness(self):
        use, df = {}, {}
        phiuse = defaultdict(set)
        for b in self.f["blocks"]:
            u, d = set(), set()
            for i in b["ins"]:
                if i["op"] == "phi":
                    for pb, v in i["ops"]:
                        if isinstance(v, int):
                            phiuse[pb].add(v)
                else:
                    for x in i["ops"]:
                        if isinstance(x, int) and x not in d:
                            u.add(x)
                    if isinstance(i.get("ind"), int) and i["ind"] not in d:
                        u.add(i["ind"])
                    for vo in i.get("vo") or []:
                        x = vo[0] if isinstance(vo, list) else vo
                        if isinstance(x, int) and x not in d:
                            u.add(x)
                d.add(i["id"])
            use[b["id"]], df[b["id"]] = u, d
        out = {b: set() for b in self.blocks}
        inn = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.f["blocks"]):
                o = set(phiuse[b["id"]])
                for s in b["succ"]:
                    o |= inn[s]
                i = use[b["id"]] | (o - df[b["id"]])
                if o != out[b["id"]] or i != inn[b["id"]]:
                    out[b["id"]], inn[b["id"]] = o, i
                    ch = True
        self.live_out = out

    def relevant(self):
        for b in self.f["blocks"]:
            for i in b["ins"]:
                if i["op"] != "call":
                    continue
                c = i.get("callee")
                if c is None:
                    if self.W.d0 is not None and i.get("ind") is not None:
                        return True
                    continue
                if kind_of(ALLOC, c) or kind_of(FREE, c):
                    return True
                s = self.W.sum.get(self.W.resolve(c))
                if s and (s.frees or s.outs or any(r[0] == "fresh" for r in s.rets)):
                    return True
        return False

    def stores_pointers(self):
        return any(i["op"] == "store" and i.get("vty") == "ptr" for b in self.f["blocks"] for i in b["ins"])

    def run(self):
        self.rel = self.relevant()
        if not self.rel and not self.stores_pointers() and not any(i["op"] == "ret" and i["ops"] for b in self.f["blocks"] for i in b["ins"]):
            return
        self.liveness()
        st = State()
        for n, a in enumerate(self.f["args"]):
            if a["ty"] == "ptr":
                st.env[a["id"]] = (("arg", n), 0)
        entry = self.f["blocks"][0]["id"]
        work = [(entry, None, st)]
        seen = set()
        while work:
            b, pb, st = work.pop()
            k = (b, pb if any(i["op"] == "phi" for i in self.blocks[b]["ins"]) else None, st.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > CAP:
                self.overflow = True
                return
            work += self.block(b, pb, st.copy())

    # ------------------------------------------------------------ evaluation
    def val(self, st, x):
        if isinstance(x, int):
            return st.env.get(x, OTHER)
        if isinstance(x, list):
            if x[0] == "null":
                return NULL
            if x[0] == "ci":
                return (("int", x[1]), 0)
            if x[0] == "g":
                return (("glob", x[1]), 0)
            if x[0] == "gep":
                return addoff(self.val(st, x[1]), x[2] if isinstance(x[2], int) else None)
        return OTHER

    def nullness(self, st, v):
        r = v[0]
        if r[0] == "null":
            return True
        if r[0] in ("loc", "glob"):
            return False
        if r in st.null:
            return st.null[r]
        if r[0] == "site":
            return None if self.sites[r[1]][0] in MAYFAIL else False
        return None

    def report(self, what, i, text, definite=True):
        self.found.setdefault((what, str(i.get("loc"))), (definite, text, i.get("loc")))

    def assume(self, st, x, truth):
        """follow a branch on i1 value x; False when the state cannot take it"""
        i = self.ins.get(x) if isinstance(x, int) else None
        if i is None:
            if isinstance(x, list) and x[0] == "ci":
                return bool(x[1]) == truth
            return True
        if st.env.get(x, OTHER)[0][0] == "int":
            return bool(st.env[x][0][1]) == truth
        if x in st.cond:
            return st.cond[x] == truth
        j = logic(i)
        if j:
            kind, a, b = j
            if truth == (kind == "and"):
                if not (self.assume(st, a, truth) and self.assume(st, b, truth)):
                    return False
            else:
                ka, kb = self.known_cond(st, a), self.known_cond(st, b)
                if ka == (kind == "and") and not self.assume(st, b, truth):
                    return False
                if kb == (kind == "and") and not self.assume(st, a, truth):
                    return False
            st.cond[x] = truth
            return True
        if i["op"] == "icmp" and i.get("pred") in ("eq", "ne"):
            a, b = (self.val(st, y) for y in i["ops"])
            want = truth == (i["pred"] == "eq")
            if a[0][0] == "int" and b[0][0] == "int":
                return (a[0][1] == b[0][1]) == want
            if b[0][0] != "null" and a[0][0] == "null":
                a, b = b, a
            if b[0][0] == "null":
                n = self.nullness(st, a)
                if n is not None:
                    return n == want
                if a[0][0] in ("arg", "init", "ret", "site") and a[1] == 0:
                    st.null[a[0]] = want
                    return True
        if i["op"] == "xor" and i.get("ty") == "i1" and isinstance(i["ops"][1], list) and i["ops"][1][0] == "ci":
            return self.assume(st, i["ops"][0], not truth)
        st.cond[x] = truth
        return True

    def known_cond(self, st, x):
        """truth of an i1 value in this state, None when both are possible"""
        s1, s2 = st.copy(), st.copy()
        t, f = self.assume(s1, x, True), self.assume(s2, x, False)
        return None if t and f else True if t else False

    def touch(self, st, v, i, what):
        """the memory behind v is used"""
        s = st.status.get(v[0])
        if s and s[0] == "freed":
            self.report("use", i, "%s after its release at %s" % (what, place(s[1])))

    def kept(self, st, v, i, where):
        """the pointer is stored somewhere that outlives the function, or handed to somebody who keeps it"""
        r = v[0]
        if r[0] in ("site", "arg", "init", "ret"):
            s = st.status.get(r)
            if s and s[0] == "freed":
                self.report("use", i, "handed on after its release at %s" % place(s[1]))
                return
            if r[0] == "site" or r[0] == "arg":
                old = s[1] if s and s[0] == "kept" else ()
                st.status[r] = ("kept", tuple(sorted(set(old) | {where}, key=str)))

    def escape_mem(self, st, root):
        """everything stored in a local object may now be held by somebody else"""
        for (r, o), v in list(st.mem.items()):
            if r == root:
                if v[0][0] == "site" and st.status.get(v[0], ("live",))[0] == "live":
                    st.status[v[0]] = ("kept", (("?", None),))
                del st.mem[(r, o)]

    def store(self, st, v, a, i):
        r, o = a
        if r[0] in ("null",):
            return
        self.touch(st, a, i, "written")
        if v[0][0] == "loc" and r[0] != "loc":
            self.escape_mem(st, v[0])
        if o is None:
            for k in [k for k in st.mem if k[0] == r]:
                w = st.mem.pop(k)
                if w[0][0] == "site" and st.status.get(w[0], ("live",))[0] == "live":
                    st.status[w[0]] = ("kept", (("?", None),))
            if v[0][0] != "null":
                self.kept(st, v, i, ("?", None))
            return
        if r[0] == "arg" and r not in st.status:
            self.overwritten(st, r, o, i)
        if r[0] in ("loc", "site") and not (r[0] == "site" and st.status.get(r, ("live",))[0] == "kept"):
            st.mem[(r, o)] = v
            return
        st.mem[(r, o)] = v
        if v[0][0] != "null":
            self.kept(st, v, i, (r[1], o) if r[0] == "arg" else ("?", None))

    def overwritten(self, st, r, o, i):
        """a field of a parameter is replaced: what became of the pointer it held?"""
        old = (("init", r, o), 0)
        s = st.status.get(old[0])
        cur = st.mem.get((r, o))
        if cur is None and not s and st.null.get(old[0]) is not True:
            st.status.setdefault(("over", r[1], o), ("over", i.get("loc") and tuple(map(tuple, i["loc"])) or ()))

    def load(self, st, a, i):
        r, o = a
        self.touch(st, a, i, "read")
        if o is None or r[0] in ("?", "int", "null"):
            return OTHER
        if (r, o) in st.mem:
            return st.mem[(r, o)]
        if r[0] == "arg" or r[0] == "init" and len(str(r)) < 60 or r[0] == "glob":
            self.loaded.add(("init", r, o))
            return (("init", r, o), 0)
        return OTHER

    def release(self, st, v, i, kind, how="released"):
        r, o = v
        if r[0] == "null" or self.nullness(st, v) is True:
            return
        self.frees += 1
        s = st.status.get(r)
        if r[0] == "loc":
            if o is not None and kind is not None:
                self.report("double", i, "a local object is released")
            return
        if r[0] in ("?", "int", "ret", "glob") and r[0] != "ret":
            return
        if s and s[0] == "freed":
            self.report("double", i, "released twice: before at %s" % place(s[1]))
            return
        if r[0] == "site":
            k = self.sites[r[1]][0]
            if kind and k and k != kind:
                self.report("form", i, "what was obtained with %s is released with %s" % (HOW[k], REL[kind]))
            if o is not None and o != 0 and kind:
                self.report("form", i, "released through a pointer that is not the one %s returned" % HOW[k])
        st.status[r] = ("freed", i.get("loc") and tuple(map(tuple, i["loc"])) or (), kind)
        st.null.setdefault(r, False)

    # ------------------------------------------------------------ transfer
    def block(self, b, pb, st):
        new = {}
        for i in self.blocks[b]["ins"]:
            if i["op"] != "phi":
                break
            for p, v in i["ops"]:
                if p == pb:
                    w = self.val(st, v)
                    if w[1] is not None and w[0][0] not in ("int", "null"):
                        h = self.offs.setdefault((i["id"], w[0]), set())
                        h.add(w[1])
                        if len(h) > 3:          # a pointer moved by a loop
                            w = (w[0], None)
                    new[i["id"]] = w
                    if i.get("ty") == "i1":
                        # keep what is known about the incoming condition
                        st.cond.pop(i["id"], None)
                        if isinstance(v, int) and v in st.cond:
                            new[i["id"]] = (("int", int(st.cond[v])), 0)
        for k, v in new.items():
            st.cond.pop(k, None)
            if v[0][0] == "int" and self.ins[k].get("ty") == "i1":
                st.cond[k] = bool(v[0][1])
            if v == OTHER:
                st.env.pop(k, None)
            else:
                st.env[k] = v
        for i in self.blocks[b]["ins"]:
            op = i["op"]
            if op == "phi":
                continue
            st.cond.pop(i["id"], None)
            v = None
            if op == "alloca":
                v = (("loc", i["id"]), 0)
                for k in [k for k in st.mem if k[0] == v[0]]:
                    del st.mem[k]
            elif op == "gep":
                v = addoff(self.val(st, i["ops"][0]), i.get("off") if not i.get("vo") else None)
            elif op in ("bitcast", "freeze", "addrspacecast"):
                v = self.val(st, i["ops"][0])
            elif op == "select":
                if i["ops"][0] in st.cond:
                    v = self.val(st, i["ops"][1 if st.cond[i["ops"][0]] else 2])
                else:
                    a, c = self.val(st, i["ops"][1]), self.val(st, i["ops"][2])
                    if a != c:
                        # follow both
                        res = []
                        for t in (True, False):
                            s2 = st.copy()
                            if self.assume(s2, i["ops"][0], t):
                                if isinstance(i["ops"][0], int):
                                    s2.cond[i["ops"][0]] = t
                                res.append(s2)
                        if len(res) == 2 and (a[0][0] in ("site", "null") or c[0][0] in ("site", "null")) and self.rel:
                            out = []
                            for s2, w in zip(res, (a, c)):
                                s2.env[i["id"]] = w
                                out += self.rest(b, i["id"], s2)
                            return out
                        if len(res) == 1:
                            st = res[0]
                            v = self.val(st, i["ops"][1 if st.cond.get(i["ops"][0]) else 2])
                        else:
                            for w in (a, c):
                                if w[0][0] == "site":
                                    self.kept(st, w, i, ("?", None))
                    else:
                        v = a
            elif op == "load":
                w = self.load(st, self.val(st, i["ops"][0]), i)
                if i.get("ty") == "ptr":
                    v = w
            elif op == "store":
                w = self.val(st, i["ops"][0])
                a = self.val(st, i["ops"][1])
                if i.get("vty") == "ptr":
                    self.store(st, w, a, i)
                else:
                    self.touch(st, a, i, "written")
            elif op == "ptrtoint":
                w = self.val(st, i["ops"][0])
            elif op == "call":
                if i.get("noret"):
                    return []
                v = self.call(st, i)
                if v == "noreturn":
                    return []
                if isinstance(v, list):
                    out = []
                    for s2, w in v:
                        if w is None or w == OTHER:
                            s2.env.pop(i["id"], None)
                        else:
                            s2.env[i["id"]] = w
                        out += self.rest(b, i["id"], s2)
                    return out
            elif op == "ret":
                self.ret(st, i)
                return []
            elif op == "unreachable":
                return []
            elif op in ("br", "switch"):
                return self.branch(b, st, i)
            if v is None or v == OTHER:
                st.env.pop(i["id"], None)
            else:
                st.env[i["id"]] = v
        return []

    def rest(self, b, after, st):
        """the remainder of block b behind instruction `after`"""
        blk = self.blocks[b]
        k = [n for n, i in enumerate(blk["ins"]) if i["id"] == after][0]
        tmp = ("rest", b, after)
        self.blocks[tmp] = dict(id=tmp, ins=blk["ins"][k + 1:], succ=blk["succ"], real=b)
        return self.block(tmp, None, st)

    def real(self, b):
        while b in self.blocks and "real" in self.blocks[b]:
            b = self.blocks[b]["real"]
        return b

    def branch(self, b, st, i):
        b = self.real(b)
        out = []
        ops = i["ops"]
        if i["op"] == "br" and len(ops) == 1:
            out.append((ops[0][1], b, st))
        elif i["op"] == "br":
            # LLVM lists the false target first
            for t, tgt in ((False, ops[1]), (True, ops[2])):
                s2 = st.copy()
                if self.assume(s2, ops[0], t):
                    out.append((tgt[1], b, s2))
        else:
            v = self.val(st, ops[0])
            cases = [(ops[k], ops[k + 1]) for k in range(2, len(ops) - 1, 2)]
            if v[0][0] == "int":
                hit = [t for c, t in cases if c[1] == v[0][1]]
                out.append(((hit[0] if hit else ops[1])[1], b, st))
            else:
                for t in {t[1] for c, t in cases} | {ops[1][1]}:
                    out.append((t, b, st.copy()))
        res = []
        lo = self.live_out[b]
        for t, b, s in out:
            s.env = {k: v for k, v in s.env.items() if k in lo or k in self.args}
            s.cond = {k: v for k, v in s.cond.items() if k in lo}
            self.prune(s)
            res.append((t, b, s))
        return res

    def prune(self, s):
        roots = {v[0] for v in s.env.values()} | {v[0] for v in s.mem.values()}
        for r in [r for r in s.status if r[0] == "site" and s.status[r][0] != "live" and r not in roots]:
            del s.status[r]
            s.null.pop(r, None)

    # ------------------------------------------------------------ calls
    def fresh(self, st, i, kind):
        r = ("site", i["id"])
        self.sites[i["id"]] = (kind, i)
        old = st.status.get(r)
        if old and old[0] == "live":
            held = any(v[0] == r for k, v in st.env.items() if k != i["id"] and k in self.live_now(i)) or any(v[0] == r for v in st.mem.values())
            if not held:
                self.report("leak", i, "obtained again, in a loop, while the one before has not been released")
        for k in [k for k in st.mem if k[0] == r]:
            del st.mem[k]
        for k in [k for k, v in st.env.items() if v[0] == r]:
            del st.env[k]
        for k in [k for k, v in st.mem.items() if v[0] == r]:
            del st.mem[k]
        st.null.pop(r, None)
        st.status[r] = ("live",)
        return (r, 0)

    def live_now(self, i):
        for b in self.f["blocks"]:
            for n, x in enumerate(b["ins"]):
                if x["id"] == i["id"]:
                    u = set(self.live_out[b["id"]])
                    for y in b["ins"][n:]:
                        u |= {z for z in y["ops"] if isinstance(z, int)}
                    return u
        return set()

    def call(self, st, i):
        c = i.get("callee")
        ops = [self.val(st, x) for x in i["ops"]]
        if c is None:
            ind = self.ins.get(i.get("ind")) if isinstance(i.get("ind"), int) else None
            if ind is not None and ind["op"] == "load" and len(ops) == 1 and self.W.d0 is not None:
                g = self.ins.get(ind["ops"][0]) if isinstance(ind["ops"][0], int) else None
                off, base = 0, g
                if g is not None and g["op"] == "gep" and not g.get("vo"):
                    off, base = g.get("off"), self.ins.get(g["ops"][0]) if isinstance(g["ops"][0], int) else None
                if base is not None and base["op"] == "load" and base.get("vt") and off == self.W.d0:
                    self.release(st, ops[0], i, "new")
                    return None
            for n, v in enumerate(ops):
                self.touch(st, v, i, "passed on")
                if n and v[0][0] == "site":
                    self.kept(st, v, i, ("?", None))
                if v[0][0] == "loc":
                    self.escape_mem(st, v[0])
            return (("ret", i["id"]), 0) if i.get("ty") == "ptr" else None
        k = kind_of(ALLOC, c)
        if k:
            return self.fresh(st, i, k)
        k = kind_of(FREE, c)
        if k:
            self.release(st, ops[0], i, k)
            return None
        if c.startswith("llvm."):
            if c.startswith(("llvm.memcpy", "llvm.memmove")):
                self.touch(st, ops[0], i, "written")
                self.touch(st, ops[1], i, "read")
                n = i["ops"][2]
                n = n[1] if isinstance(n, list) and n[0] == "ci" else None
                (rd, od), (rs, os_) = ops[0], ops[1]
                if n is not None and n % 8 == 0 and n <= 256 and od is not None and os_ is not None and (rd[0] in ("loc", "arg") or rs[0] == "loc"):
                    for d in range(0, n, 8):
                        if (rs, os_ + d) in st.mem:
                            self.store(st, st.mem[(rs, os_ + d)], (rd, od + d), i)
                        elif (rd, od + d) in st.mem:
                            del st.mem[(rd, od + d)]
                return None
            return None
        tgt = self.W.resolve(c)
        s = self.W.sum.get(tgt)
        if s is not None:
            return self.known(st, i, ops, s)
        # no body: C functions and numerical libraries look at their arguments during the call, C++ objects may keep them
        dem = self.u.dem(c) or c
        cxx = "(" in dem
        dtor = cxx and "::~" in dem
        for n, v in enumerate(ops):
            self.touch(st, v, i, "passed to %s" % dem.split("(")[0])
            if cxx and v[0][0] == "site" and n > 0 and not re.match(r"^(std::(basic_|ostream|istream|operator|sort)|tensor::Vector<.*>::(begin|end|size|at|operator\[\])|operator)", dem):
                self.kept(st, v, i, ("?", None))
            if v[0][0] == "loc" and cxx and not dem.endswith(" const"):
                if not dtor:
                    pass
        return (("ret", i["id"]), 0) if i.get("ty") == "ptr" else None

    def known(self, st, i, ops, s):
        if s.noreturn:
            return "noreturn"
        freed = {}
        for (n, off), (always, kind) in s.frees.items():
            if n >= len(ops):
                continue
            if off is None:
                if always:
                    freed[n] = kind
                else:
                    v = ops[n]
                    if v[0][0] == "site":
                        st.status[v[0]] = ("kept", (("?", None),))
            else:
                v = self.load(st, addoff(ops[n], off), i) if ops[n][0][0] != "null" else OTHER
                if v[0][0] in ("site", "init"):
                    if always:
                        self.release(st, v, i, kind)
                    elif v[0][0] == "site" and st.status.get(v[0], ("live",))[0] == "live":
                        st.status[v[0]] = ("kept", (("?", None),))
        for n, v in enumerate(ops):
            if n not in freed:
                self.touch(st, v, i, "passed on")
        for n, c, o in s.into:
            if n < len(ops):
                self.becomes(ops[n], c, o, i)
        ret = None
        for n, dsts in s.keeps.items():
            if n >= len(ops) or n in freed:
                continue
            v = ops[n]
            for d, o in sorted(dsts, key=str):
                if isinstance(d, int) and d < len(ops) and ops[d][0][0] in ("loc", "site") and ops[d][1] is not None and o is not None:
                    st.mem[(ops[d][0], ops[d][1] + o)] = v
                elif isinstance(d, int) and d < len(ops) and ops[d][0][0] == "arg" and ops[d][1] is not None and o is not None:
                    st.mem[(ops[d][0], ops[d][1] + o)] = v
                    self.kept(st, v, i, (ops[d][0][1], ops[d][1] + o))
                else:
                    self.kept(st, v, i, ("?", None))
        for n in freed:
            self.release(st, ops[n], i, freed[n])
        if s.cases and self.rel:
            res = []
            for r, out, nul in s.cases:
                s2 = st.copy()
                for (d, o), kind in sorted(out, key=str):
                    if d < len(ops) and ops[d][1] is not None and o is not None:
                        self.store(s2, self.fresh_out(s2, i, kind, d, o), addoff(ops[d], o), i)
                for d, o in nul:
                    if d < len(ops) and ops[d][1] is not None:
                        s2.mem[(ops[d][0], ops[d][1] + o)] = NULL
                v = None
                if r and r[0] == "fresh":
                    v = addoff(self.fresh(s2, i, r[1]), r[2])
                elif r and r[0] == "null":
                    v = NULL
                elif r and r[0] == "int":
                    v = (("int", r[1]), 0)
                    if i.get("ty") == "i1":
                        s2.cond[i["id"]] = bool(r[1])
                elif i.get("ty") == "ptr":
                    v = (("ret", i["id"]), 0)
                res.append((s2, v))
            return res
        for (d, o), kind in s.outs.items():
            if d < len(ops) and ops[d][1] is not None and o is not None:
                v = self.fresh_out(st, i, kind, d, o)
                self.store(st, v, addoff(ops[d], o), i)
        for d, o in s.nulls:
            if d < len(ops) and ops[d][1] is not None:
                st.mem[(ops[d][0], ops[d][1] + o)] = NULL
        if i.get("ty") == "ptr":
            rs = s.rets
            if len(rs) == 1:
                r = next(iter(rs))
                if r[0] == "fresh":
                    return addoff(self.fresh(st, i, r[1]), r[2])
                if r[0] == "arg" and r[1] < len(ops):
                    return addoff(ops[r[1]], r[2])
            for r in rs:
                if r[0] == "arg" and r[1] < len(ops) and ops[r[1]][0][0] == "site":
                    self.kept(st, ops[r[1]], i, ("?", None))
            return (("ret", i["id"]), 0)
        return None

    def becomes(self, v, c, o, i):
        """the pointer is stored in a member of an object of class c"""
        r = v[0]
        if r[0] == "site":
            self.W.given.setdefault((c, o), (self.name, self.sites[r[1]][0], i.get("loc")))
        elif r[0] == "arg":
            self.into.add((r[1], c, o))

    def fresh_out(self, st, i, kind, d, o):
        key = (i["id"], d, o)
        r = ("site", key)
        self.sites[key] = (kind[0], i)
        st.status[r] = ("live",)
        return (r, kind[1])

    # ------------------------------------------------------------ the end of a path
    def ret(self, st, i):
        rv = self.val(st, i["ops"][0]) if i["ops"] else None
        res = None
        if rv is not None:
            r = rv[0]
            s = st.status.get(r)
            if s and s[0] == "freed" and r[0] in ("site", "arg", "init"):
                self.report("use", i, "returned after its release at %s" % place(s[1]))
            if r[0] == "site":
                k = self.sites[r[1]][0]
                if (s or ("live",))[0] == "live":
                    res = ("fresh", k, rv[1])
                    st.status[r] = ("kept", (("ret", None),))
                    self.inside(st, r)
                else:
                    res = ("other",)
            elif r[0] == "arg":
                res = ("arg", r[1], rv[1])
            elif r[0] == "null":
                res = ("null",)
            elif r[0] == "int":
                res = ("int", r[1])
            elif self.ptr_result(i["ops"][0]):
                res = ("other",)
        # what lives on in an object that outlives the call
        for (r, o), v in st.mem.items():
            c = None
            if r[0] == "site":
                t = st.mem.get((r, 0), OTHER)
                c = self.W.vclass.get(t[0][1]) if t[0][0] == "glob" else None
            elif r == ("arg", 0):
                c = self.ctor_of
            if c and v[0] != r:
                self.becomes(v, c, o, i)
        for r in list(st.status):
            if r[0] == "site" and st.status[r][0] == "kept":
                self.inside(st, r)
        for r, s in st.status.items():
            if r[0] == "site" and s[0] == "live" and st.null.get(r) is not True:
                kind, si = self.sites[r[1]]
                self.found.setdefault(("leak", str(si.get("loc"))), (True, "not released on the path that returns at %s" % place(i.get("loc")), si.get("loc")))
        out, nul = {}, set()
        for (r, o), v in st.mem.items():
            if r[0] == "arg":
                if v[0][0] == "site":
                    out[(r[1], o)] = (self.sites[v[0][1]][0], v[1])
                elif v[0][0] == "null":
                    nul.add((r[1], o))
        self.exits.append(dict(ret=res, status=dict(st.status), null=dict(st.null), out=out, nul=nul, loc=i.get("loc"),
                               mem={k: v for k, v in st.mem.items() if k[0][0] == "arg"}))

    def ptr_result(self, x):
        if isinstance(x, list):
            return x[0] not in ("ci", "cf")
        if x in self.args:
            return self.f["args"][self.args[x]]["ty"] == "ptr"
        return self.ins.get(x, {}).get("ty") == "ptr"

    def inside(self, st, root):
        """allocations reachable only from an object that is handed on go with it"""
        for (r, o), v in list(st.mem.items()):
            if r == root and v[0][0] in ("site", "arg"):
                s = st.status.get(v[0], ("live",))
                if s[0] == "live":
                    st.status[v[0]] = ("kept", (("?", None),))
                    if v[0][0] == "site":
                        self.inside(st, v[0])

    # ------------------------------------------------------------ summary
    def summary(self):
        s = Summary()
        ex = self.exits
        if self.overflow:
            return s
        s.into = set(self.into)
        if not ex:
            s.noreturn = bool(self.f["blocks"]) and hasattr(self, "live_out")
            return s
        places = set()
        for e in ex:
            for r, t in e["status"].items():
                if t[0] == "freed" and r[0] == "arg":
                    places.add(((r[1], None), r))
                elif t[0] == "freed" and r[0] == "init" and r[1][0] == "arg":
                    places.add(((r[1][1], r[2]), r))
                elif t[0] == "kept" and r[0] == "arg":
                    s.keeps.setdefault(r[1], set()).update(t[1])
        for p, r in places:
            always, kind = True, None
            for e in ex:
                t = e["status"].get(r)
                if t and t[0] == "freed":
                    kind = t[2] if kind is None else kind
                elif e["null"].get(r) is not True:
                    always = False
            s.frees[p] = (always, kind)
        for e in ex:
            if e["ret"] and e["ret"][0] not in ("null", "int"):
                s.rets.add(e["ret"])
        for k in set().union(*[set(e["out"]) for e in ex]):
            ks = {e["out"].get(k) for e in ex}
            if len(ks) == 1:
                s.outs[k] = ks.pop()
        s.nulls = set.intersection(*[e["nul"] for e in ex])
        cs = {(e["ret"] if e["ret"] and e["ret"][0] in ("int", "null", "fresh") else None, frozenset(e["out"].items()), frozenset(e["nul"])) for e in ex}
        if 1 < len(cs) <= 4 and any(c[1] or c[0] and c[0][0] == "fresh" for c in cs):
            s.cases = tuple(sorted(cs, key=str))
        return s


def logic(i):
    """i1 conjunction or disjunction: ("and" | "or", a, b)"""
    def const(x, v):
        return isinstance(x, list) and x[0] == "ci" and bool(x[1]) == v
    if i.get("ty") != "i1":
        return None
    if i["op"] in ("and", "or"):
        return (i["op"],) + tuple(i["ops"][:2])
    if i["op"] == "select":
        c, a, b = i["ops"]
        if const(b, False):
            return ("and", c, a)
        if const(a, True):
            return ("or", c, b)
    return None


def place(loc):
    from framework import fmtloc
    try:
        return fmtloc(loc) or "?"
    except Exception:
        return "?"
