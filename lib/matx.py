"""Summaries of functions written in terms of whole tensors: objects hold terms over calls, loops are
either run through (when their conditions are decided by the case analysed) or summarised by one
iteration on arbitrary values of everything they change."""
import re
from fractions import Fraction
from framework import *
from walk import Unknown

LIMIT = 4000


def split_params(d):
    """parameter types of a demangled name"""
    k = depth = 0
    # the parameter list starts at the last top-level "(" that is not "operator()"
    start = None
    i = 0
    while i < len(d):
        c = d[i]
        if c == "<" and not re.search(r"operator<?$", d[:i]) :
            depth += 1
        elif c == ">" and not re.search(r"operator[->]?$", d[:i]) and depth:
            depth -= 1
        elif c == "(" and depth == 0:
            if d[:i].endswith("operator") and d[i:i + 2] == "()":
                i += 2
                continue
            start = i
            break
        i += 1
    if start is None:
        return None
    out, depth, cur = [], 0, ""
    for c in d[start + 1:]:
        if c in "<(":
            depth += 1
        if c == ")" and depth == 0:
            break
        if c in ">)":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def base_name(d):
    """qualified name without return type, template arguments and parameters"""
    s, depth, i = "", 0, 0
    while i < len(d):
        c = d[i]
        if c == "<" and not s.endswith("operator") and not s.endswith("operator<"):
            depth += 1
        elif c == ">" and depth and not s.endswith("operator") :
            depth -= 1
        elif depth == 0:
            if c == "(":
                if s.endswith("operator") and d[i:i + 2] == "()":
                    s += "()"
                    i += 2
                    continue
                break
            s += c
        i += 1
    m = re.search(r"(\S*operator\s?(?:\(\)|[^\s\w]+|[\w: ]+)|[\w:~]+)$", s.strip())
    return m.group(1) if m else s


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


class Path:
    __slots__ = ("env", "mem", "conds", "events", "kind", "ret", "where", "known", "prev", "loops", "visits")

    def __init__(self):
        self.env, self.mem, self.conds, self.events, self.known = {}, {}, [], [], {}
        self.kind = self.ret = self.where = self.prev = None
        self.loops = {}
        self.visits = {}

    def copy(self):
        p = Path()
        p.env, p.mem, p.conds, p.events, p.known = dict(self.env), dict(self.mem), list(self.conds), list(self.events), dict(self.known)
        p.kind, p.ret, p.where, p.prev, p.loops, p.visits = self.kind, self.ret, self.where, self.prev, dict(self.loops), dict(self.visits)
        return p


class Machine:
    """preset: {argument position: constant}"""

    def __init__(self, fn, unit, preset=None):
        self.fn, self.unit = fn, unit
        self.preset = preset or {}
        self.blocks = {b["id"]: b for b in fn["blocks"]}
        self.heads = {}
        self.find_loops()
        self.inductive = {}         # head -> set of memory keys changed by the loop
        self.steps = 0

    # ---------------------------------------------------------------- control flow
    def find_loops(self):
        entry = self.fn["blocks"][0]["id"]
        succ = {b["id"]: b["succ"] for b in self.fn["blocks"]}
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        ids = list(succ)
        dom = {b: set(ids) for b in ids}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in ids:
                if b == entry:
                    continue
                ps = [dom[p] for p in pred.get(b, []) if p in dom]
                n = ({b} | set.intersection(*ps)) if ps else {b}
                if n != dom[b]:
                    dom[b], ch = n, True
        for b in ids:
            for s in succ[b]:
                if s in dom[b]:
                    body, st = {s, b}, [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in pred.get(x, []):
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    self.heads.setdefault(s, set()).update(body)

    def inner(self, b):
        c = [h for h, body in self.heads.items() if b in body]
        return min(c, key=lambda h: len(self.heads[h])) if c else None

    def run(self):
        for _ in range(40):
            try:
                return self.attempt()
            except Retry:
                continue
        raise Unknown("loops do not settle")

    def attempt(self):
        p = Path()
        for k, a in enumerate(self.fn["args"]):
            v = self.preset.get(k)
            if v is None:
                v = ("ptr", ("arg", k), 0) if a["ty"] == "ptr" else ("arg", k)
            p.env[a["id"]] = v
        self.begin(p)
        out, work = [], [(p, self.fn["blocks"][0]["id"], None, 0)]
        self.changed = {}
        while work:
            p, b, prev, start = work.pop()
            if len(out) > 300:
                raise Unknown("too many paths")
            work += [x if len(x) == 4 else x + (0,) for x in self.block(p, b, prev, out, start)]
        for h, ks in self.changed.items():
            if not ks <= self.inductive.get(h, set()):
                self.inductive.setdefault(h, set()).update(ks)
                raise Retry
        return out

    def begin(self, p):
        """what memory holds at first"""

    def block(self, p, b, prev, out, first):
        """runs a block; returns the continuations"""
        ins = self.blocks[b]["ins"]
        phis = [i for i in ins if i["op"] == "phi"]
        if first:
            pass
        elif b in self.heads and b in self.inductive:
            if prev in self.heads[b]:           # around once
                vals = {i["id"]: self.incoming(p, i, prev) for i in phis}
                ent, start = p.loops[b]
                p.kind, p.where = "back", b
                p.ret = vals
                self.changed.setdefault(b, set()).update(k for k in set(start) if p.mem.get(k) != start.get(k))
                out.append(p)
                return []
            entv = {i["id"]: self.incoming(p, i, prev) for i in phis}
            ent = (entv, dict(p.mem), list(p.conds))
            for k in self.inductive[b]:
                if k in p.mem:
                    p.mem[k] = ("h", b, k)
            for i in phis:
                p.env[i["id"]] = ("h", b, i["id"])
            p.known = dict(p.known)
            p.loops[b] = (ent, dict(p.mem))
        else:
            if b in self.heads:
                p.visits[b] = p.visits.get(b, 0) + 1 if prev in self.heads[b] else 0
                if p.visits[b] > 64:
                    self.inductive[b] = set()
                    raise Retry
            vals = {i["id"]: self.incoming(p, i, prev) for i in phis}
            p.env.update(vals)
        for n, i in enumerate(ins):
            if n < first:
                continue
            self.steps += 1
            if self.steps > 400000:
                raise Unknown("too many steps")
            op = i["op"]
            if op == "phi":
                continue
            if op == "select" and i["ty"] == "ptr":
                c = self.val(p, i["ops"][0])
                if self.truth(p, c) is None:
                    r = []
                    for v in (True, False):
                        q = p.copy()
                        q.known[c] = v
                        q.conds.append((c, v))
                        r.append((q, b, prev, n))
                    return r
            if op in ("br", "switch"):
                return self.branch(p, b, i)
            if op == "ret":
                p.kind, p.ret = "ret", self.val(p, i["ops"][0]) if i["ops"] else None
                out.append(p)
                return []
            if op == "unreachable":
                return []               # abort() and its like end a path before this
            if op == "call" or op == "invoke":
                r = self.call(p, i)
                if r == "stop":
                    p.kind = "abort"
                    out.append(p)
                    return []
                if op == "invoke":
                    return [(p, i["ops"][-1][1] if False else self.blocks[b]["succ"][0], b)]
                continue
            p.env[i["id"]] = self.plain(p, i)
        return []

    def incoming(self, p, i, prev):
        for bb, v in i["ops"]:
            if bb == prev:
                return self.val(p, v)
        raise Unknown("phi")

    def branch(self, p, b, i):
        ops = i["ops"]
        if i["op"] == "br" and len(ops) == 1:
            return [(p, ops[0][1], b)]
        c = self.val(p, ops[0])
        if i["op"] == "br":
            targets = [(ops[2][1], True), (ops[1][1], False)]
            d = self.truth(p, c)
            if d is not None:
                return [(p, targets[0][0] if d else targets[1][0], b)]
        else:
            targets = [(ops[k + 1][1], ops[k][1]) for k in range(2, len(ops), 2)]
            if isnum(c):
                for t, v in targets:
                    if v == c:
                        return [(p, t, b)]
                return [(p, ops[1][1], b)]
            rest = ("notin", c) + tuple(v for t, v in targets)
            targets.append((ops[1][1], rest))
        h = self.inner(b)
        while h is not None and h in self.inductive:
            h = min((x for x in self.heads if self.heads[x] > self.heads[h]), key=lambda x: len(self.heads[x]), default=None)
        if h is not None and self.inner(b) == h:
            self.inductive[h] = set()
            raise Retry
        out = []
        for t, v in targets:
            q = p.copy()
            q.conds.append((v, True) if isinstance(v, tuple) else (c, v))
            if i["op"] == "br":
                q.known[c] = v
            out.append((q, t, b))
        return out

    # ---------------------------------------------------------------- values
    def val(self, p, o):
        if isinstance(o, int):
            if o not in p.env:
                raise Unknown("value %d" % o)
            return p.env[o]
        k = o[0]
        if k == "ci":
            return o[1]
        if k == "cf":
            return num(float(o[1])) if not o[1].startswith("0x") else ("unk", o[1])
        if k == "null":
            return 0
        if k == "g":
            return ("ptr", ("g", o[1]), 0)
        if k == "gep":
            b = self.val(p, o[1])
            return ("ptr", b[1], b[2] + o[2])
        if k == "fn":
            return ("fn", o[1])
        if k == "bb":
            return o
        return ("unk", str(o))

    def truth(self, p, c):
        if isnum(c):
            return bool(c)
        if isinstance(c, tuple):
            if c in p.known:
                return p.known[c]
            if c[0] == "not":
                d = self.truth(p, c[1])
                return None if d is None else not d
            n = negate(c)
            if n is not None and n in p.known:
                return not p.known[n]
            if c[0] in ("eq", "ne") and any(isinstance(x, tuple) and x[0] == "ptr" for x in c[1:]):
                x, y = c[1], c[2]
                fresh = [z for z in (x, y) if isinstance(z, tuple) and z[0] == "ptr" and z[1][0] in ("alloca", "new")]
                if fresh and (0 in (x, y) or x[1] != y[1]):
                    return c[0] == "ne"
                if x == y:
                    return c[0] == "eq"
        return None

    def load(self, p, ptr, ty):
        if not (isinstance(ptr, tuple) and ptr[0] == "ptr"):
            return ("deref", ptr)
        key = (ptr[1], ptr[2])
        if key in p.mem:
            return p.mem[key]
        if ptr[1][0] == "obj" and ptr[2] == 8 and (ptr[1], 0) in p.mem:
            return ("im", p.mem[(ptr[1], 0)])       # the second half of a complex number
        if ptr[1][0] == "elem" and ptr[2] in (0, 8) and ty != "ptr":
            e = ("elem", self.tensor(p, ptr[1][1])) + tuple(ptr[1][2])
            return ("im", e) if ptr[2] else ("re", e)
        if ty == "ptr" and ptr[1][0] != "alloca":
            return ("ptr", ("in", ptr[1], ptr[2]), 0)
        return ("init", ptr[1], ptr[2])

    def poke(self, p, ptr, *v):
        """stores a number, or the parts of a complex one, into an element or into plain memory"""
        if ptr[1][0] != "elem":
            for k, x in enumerate(v):
                p.mem[(ptr[1], add(ptr[2], 8 * k))] = x
            return
        e = ptr[1]
        k = (e[1][1], e[1][2])
        old = self.tensor(p, e[1])
        if ptr[2] == 0:
            p.mem[k] = ("put", old, e[2], v[0] if len(v) == 1 else cplx(v[0], v[1]))
        elif ptr[2] == 8 and len(v) == 1:
            if isinstance(old, tuple) and old[0] == "put" and old[2] == e[2]:
                p.mem[k] = ("put", old[1], e[2], cplx(old[3], v[0]))
            else:
                p.mem[k] = ("put", old, e[2], cplx(("re", ("elem", old) + tuple(e[2])), v[0]))
        else:
            raise Unknown("store into an element")

    def plain(self, p, i):
        op, o = i["op"], i["ops"]
        if op == "alloca":
            return ("ptr", ("alloca", i["id"]), 0)
        v = [self.val(p, x) for x in o if not (isinstance(x, list) and x[0] in ("ix", "bb"))]
        if op in ("zext", "sext", "trunc", "bitcast", "freeze", "sitofp", "uitofp", "fpext", "fptrunc"):
            if op == "zext" and isinstance(v[0], tuple) and v[0][0] in CMPS:
                return v[0]
            if op == "trunc" and i["ty"] == "i1" and isinstance(v[0], tuple) and v[0][0] not in CMPS:
                return ("ne", v[0], 0)
            return v[0]
        if op in ("fptosi", "fptoui"):
            if isnum(v[0]):
                return int(v[0])
            return v[0] if isinstance(v[0], tuple) and v[0][0] == "floor" else ("int", v[0])
        if op == "load":
            return self.load(p, v[0], i["ty"])
        if op == "store":
            if isinstance(v[1], tuple) and v[1][0] == "ptr" and v[1][1][0] == "elem":
                self.poke(p, v[1], v[0])
                return None
            if isinstance(v[1], tuple) and v[1][0] == "ptr":
                p.mem[(v[1][1], v[1][2])] = v[0]
            else:
                raise Unknown("store through " + str(v[1])[:60])
            return None
        if op == "gep":
            b = v[0]
            if not (isinstance(b, tuple) and b[0] == "ptr"):
                b = ("ptr", ("deref", b), 0)
            off = i.get("off", 0)
            for x, k in i.get("vo", []):
                off = add(off, mul(self.val(p, x), k))
            return ("ptr", b[1], add(b[2], off))
        if op in ("icmp", "fcmp"):
            return compare(i["pred"], v[0], v[1])
        if op == "select":
            d = self.truth(p, v[0])
            if d is not None:
                return v[1] if d else v[2]
            return ("select", v[0], v[1], v[2])
        if op == "extractvalue":
            k = [x[1] for x in o if isinstance(x, list) and x[0] == "ix"][0]
            if isinstance(v[0], tuple) and v[0][0] == "agg":
                return v[0][1 + k]
            return ("re" if k == 0 else "im", v[0])
        if op == "insertvalue":
            k = [x[1] for x in o if isinstance(x, list) and x[0] == "ix"][0]
            a = list(v[0]) if isinstance(v[0], tuple) and v[0][0] == "agg" else ["agg", ("unk", "undef"), ("unk", "undef")]
            a[1 + k] = v[1]
            return tuple(a)
        if op in ("add", "fadd"):
            return add(v[0], v[1])
        if op in ("sub", "fsub"):
            return add(v[0], mul(-1, v[1]))
        if op in ("mul", "fmul"):
            return mul(v[0], v[1])
        if op in ("fneg",):
            return mul(-1, v[0])
        if op in ("fdiv",):
            return div(v[0], v[1])
        if op in ("sdiv", "udiv"):
            if isnum(v[0]) and isnum(v[1]) and v[1]:
                return int(v[0] // v[1])
            return ("idiv", v[0], v[1])
        if op in ("srem", "urem"):
            if isnum(v[0]) and isnum(v[1]) and v[1]:
                return int(v[0] % v[1])
            return ("mod", v[0], v[1])
        if op in ("and", "or", "xor"):
            a, b = v
            if isnum(a) and isnum(b):
                return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            if i["ty"] == "i1":
                for x, y in ((a, b), (b, a)):
                    if isnum(x):
                        x = bool(x)
                        if op == "and":
                            return y if x else 0
                        if op == "or":
                            return 1 if x else y
                        return (negate(y) or ("not", y)) if x else y
            if op == "and" and (b == 1 or a == 1):
                return ("mod", a if b == 1 else b, 2)
            return (op, a, b)
        if op == "shl" and isnum(v[1]):
            return mul(v[0], 2 ** v[1])
        if op in ("lshr", "ashr") and isnum(v[1]):
            return int(v[0]) >> v[1] if isnum(v[0]) else ("idiv", v[0], 2 ** v[1])
        return ("unk", op) + tuple(x for x in v)

    # ---------------------------------------------------------------- calls
    def call(self, p, i):
        ops = i["ops"]
        if i.get("intr"):
            return self.intrinsic(p, i)
        a = [self.val(p, x) for x in ops if not (isinstance(x, list) and x[0] == "bb")]
        if "ind" in i:
            f = self.val(p, i["ind"])
            slot = f[1][2] if isinstance(f, tuple) and f[0] == "ptr" and f[1][0] == "in" else None
            obj = a[1] if i.get("sret") == 0 else a[0] if a else None
            if slot is None:
                raise Unknown("call through " + str(f)[:50])
            if i.get("sret") == 0:
                p.mem[(a[0][1], a[0][2])] = ("apply", slot, obj, self.tensor(p, a[2]))
                p.events.append(("apply", slot, obj))
            else:
                p.events.append(("virtual", slot, obj))
                p.env[i["id"]] = ("vres", slot, obj)
            return None
        d = self.unit.dem(i["callee"])
        if d in ("abort", "exit", "__assert_fail", "_exit") or i.get("noret"):
            return "stop"
        if d.startswith("operator new"):
            p.env[i["id"]] = ("ptr", ("new", i["id"]), 0)
            return None
        if d.startswith("operator delete"):
            return None
        return self.named(p, i, d, a)

    def intrinsic(self, p, i):
        n = i["intr"]
        a = [self.val(p, x) for x in i["ops"]]
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental", "llvm.stack", "llvm.va")):
            return None
        if n in ("llvm.memcpy", "llvm.memmove"):
            if not isnum(a[2]) or not all(isinstance(x, tuple) and x[0] == "ptr" for x in a[:2]):
                raise Unknown("memcpy")
            self.poke(p, a[0], *[self.load(p, ("ptr", a[1][1], add(a[1][2], k)), "double") for k in range(0, int(a[2]), 8)])
            return None
        if n == "llvm.memset":
            if isnum(a[2]) and a[1] == 0:
                for k in range(0, int(a[2]), 8):
                    p.mem[(a[0][1], add(a[0][2], k))] = 0
                return None
            raise Unknown("memset")
        n = n[5:].split(".")[0]
        if n in ("umax", "smax", "maxnum"):
            p.env[i["id"]] = max(a[:2]) if all(map(isnum, a[:2])) else ("max",) + tuple(a[:2])
        elif n in ("umin", "smin", "minnum"):
            p.env[i["id"]] = min(a[:2]) if all(map(isnum, a[:2])) else ("min",) + tuple(a[:2])
        elif n == "fmuladd":
            p.env[i["id"]] = add(mul(a[0], a[1]), a[2])
        else:
            p.env[i["id"]] = (n,) + tuple(a)
        return None

    def tensor(self, p, ptr):
        if not (isinstance(ptr, tuple) and ptr[0] == "ptr"):
            raise Unknown("object " + str(ptr)[:40])
        key = (ptr[1], ptr[2])
        if key in p.mem:
            return p.mem[key]
        if ptr[1][0] in ("arg", "in", "g", "deref"):
            return ("T0", ptr[1], ptr[2])
        raise Unknown("object read before it is built")

    def complex_at(self, p, ptr):
        re_, im = self.load(p, ptr, "double"), self.load(p, ("ptr", ptr[1], add(ptr[2], 8)), "double")
        return cplx(re_, im)

    def named(self, p, i, d, a):
        """calls of known functions: the value goes to the result object or the result of the instruction"""
        nm = base_name(d)
        params = split_params(d)
        dest = None
        a = list(a)
        if i.get("sret") == 0:
            dest = a.pop(0)
        cls = re.match(r"^(?:tensor::)?(Tensor|Sparse|Indices|Vector|view|mutable_view|PRange|RefPointer)\b", nm.split("::")[-2] if "::" in nm else "")
        member = len(a) > 0 and params is not None and self.is_member(d, nm, params, a)
        args = []
        this = a.pop(0) if member else None
        if isinstance(this, tuple) and this[0] == "out":
            this = ("ptr", ("deref", this), 0)      # first of an array handed out
        for t in params or []:
            args.append(self.argument(p, t, a))
        short = nm.split("::")[-1]
        if short.startswith("~"):
            if this is not None:
                p.mem.pop((this[1], this[2]), None)
            return None
        if this is not None and re.search(r"::(Tensor|Sparse|Indices|Vector|Booleans|PRange|Map|MatrixMap|FunctionMap)$", nm[:-len(short)] [:-2] if short else "") and short == nm.split("::")[-2]:
            # constructor
            if not args and short == "Map":
                return None
            t = args[0] if len(args) == 1 and params and "&" in params[0] and re.search(r"Tensor|Sparse|Indices|Vector", params[0]) else ("ctor", nm) + tuple(args)
            p.mem[(this[1], this[2])] = t
            return None
        if short == "operator=" and this is not None and not nm.startswith("std::complex"):
            old = p.mem.get((this[1], this[2]))
            if isinstance(old, tuple) and old[0] == "mview":
                k = (old[1][1], old[1][2])
                p.mem[k] = ("put", self.tensor(p, old[1]), old[2], args[0])
                p.events.append(("set", old[1]))
                return None
            p.mem[(this[1], this[2])] = args[0] if params and re.search(r"Tensor|Sparse|Indices|Vector", params[0]) else ("fill", args[0])
            p.env[i["id"]] = this
            p.events.append(("set", this))
            return None
        if short in ("operator+=", "operator-=", "operator*=", "operator/="):
            tgt = this
            if this is None:
                # free function: the first argument is the object
                pt = [self.val(p, x) for x in i["ops"]][0]
                tgt, rhs = pt, args[1]
            else:
                rhs = args[0]
            key = (tgt[1], tgt[2])
            p.mem[key] = (short[8:9], self.tensor(p, tgt), rhs)
            p.env[i["id"]] = tgt
            p.events.append(("set", tgt))
            return None
        if this is not None and short in MUTATORS:
            p.mem[(this[1], this[2])] = (short, self.tensor(p, this)) + tuple(args)
            p.events.append(("set", this))
            p.env[i["id"]] = this
            return None
        if this is not None and short in ("at", "operator()", "operator[]") and "const" not in d[d.rfind(")"):]:
            if dest is not None:
                p.mem[(dest[1], dest[2])] = ("mview", this, tuple(args))
            else:
                p.env[i["id"]] = ("ptr", ("elem", this, tuple(args)), 0)
            return None
        if nm.startswith("std::complex::"):
            cell = lambda k: (this[1], add(this[2], 8 * k))
            if short == "complex":
                v = (args + [0, 0])[:2] if len(args) < 2 else args
                if len(args) == 1 and params[0].startswith("std::complex"):
                    v = [("re", args[0]), ("im", args[0])]
                self.poke(p, this, v[0], v[1])
                return None
            if short in ("real", "imag") and not args:
                p.env[i["id"]] = self.load(p, ("ptr",) + cell(short == "imag"), "double")
                return None
            m = re.match(r"operator([-+*/]?)=$", short)
            if m:
                v = (m.group(1), self.complex_at(p, this), args[0]) if m.group(1) else args[0]
                self.poke(p, this, ("re", v), ("im", v))
                p.env[i["id"]] = this
                return None
            raise Unknown("call of " + nm)
        # everything else: a term; results of in-place functions go to their first argument
        t = (short,) + ((self.tensor(p, this),) if this is not None and self.holds(p, this) else (this,) if this is not None else ()) + tuple(args)
        if short.endswith("_inplace"):
            pt = [self.val(p, x) for x in i["ops"]][0]
            p.mem[(pt[1], pt[2])] = t
            p.events.append(("set", pt))
            p.env[i["id"]] = pt
            return None
        outs = self.outputs(p, i, d, params, short)
        for k, (ptr, nul) in enumerate(outs):
            p.mem[(ptr[1], ptr[2])] = ("out", k, t)
        if dest is not None:
            p.mem[(dest[1], dest[2])] = t
        elif i.get("ty"):
            p.env[i["id"]] = t
            if i["ty"] == "ptr" and t[0] in ("dimensions", "at", "operator[]"):
                r = ("ptr", ("obj", t), 0)
                p.mem[(r[1], 0)] = t
                p.env[i["id"]] = r
        elif not outs and short not in PURE:
            raise Unknown("call of " + nm)
        return None

    def outputs(self, p, i, d, params, short):
        """objects behind pointers to non-const tensors that are not null"""
        out = []
        ops = [self.val(p, x) for x in i["ops"]]
        if i.get("sret") == 0:
            ops = ops[1:]
        if len(ops) != len(params or []):
            return out
        for t, v in zip(params, ops):
            if t.endswith("*") and "const" not in t and isinstance(v, tuple) and v[0] == "ptr":
                out.append((v, None))
        return out

    def holds(self, p, ptr):
        return isinstance(ptr, tuple) and ptr[0] == "ptr" and ((ptr[1], ptr[2]) in p.mem or ptr[1][0] in ("arg", "in", "g", "deref"))

    def is_member(self, d, nm, params, a):
        n = 0
        for t in params:
            n += 2 if re.match(r"^std::complex<double>$", t) else 1
        return len(a) == n + 1

    def argument(self, p, t, a):
        if t == "std::complex<double>":
            x, y = a.pop(0), a.pop(0)
            return cplx(x, y)
        x = a.pop(0)
        if t.endswith("&") and isinstance(x, tuple) and x[0] == "out":
            x = ("ptr", ("deref", x), 0)
        if t.endswith("&") and isinstance(x, tuple) and x[0] == "ptr":
            if re.match(r"^std::complex<double>", t):
                return self.complex_at(p, x)
            if re.match(r"^(const )?(double|long|int|unsigned|bool|float)\b", t):
                return self.load(p, x, "double")
            return self.tensor(p, x)
        if x == 0 and t.endswith("*"):
            return ("nullptr",)
        if isinstance(x, tuple) and x[0] == "ptr" and re.search(r"PRange|Tensor|Indices", t) and not t.endswith("*"):
            return self.tensor(p, x)        # by value: a temporary
        return x


class Retry(Exception):
    pass


PURE = {"rank"}
MUTATORS = {"fill_with_zeros", "fill_with", "randomize", "resize", "reshape"}
CMPS = ("eq", "ne", "lt", "le", "gt", "ge", "not")


def cplx(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "re" and b[0] == "im" and a[1] == b[1]:
        return a[1]
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "h":
        return ("cplx", a, b)
    if isinstance(b, tuple) and b == ("im", a):
        return a
    if b == 0:
        return a
    return ("cplx", a, b)


def num(x):
    f = Fraction(x)
    g = f.limit_denominator(10 ** 6)
    return (int(g) if g.denominator == 1 else g) if float(g) == x else (int(f) if f.denominator == 1 else f)


def negate(c):
    m = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
    if isinstance(c, tuple) and c[0] in m:
        return (m[c[0]],) + c[1:]
    return c[1] if isinstance(c, tuple) and c[0] == "not" else None


def compare(pred, a, b):
    k = re.sub(r"^[usO]?", "", pred) if pred in ("eq", "ne") else pred[1:]
    if k == "rd":
        return ("ord", a, b)
    if k == "no":
        return ("uno", a, b)
    if isnum(a) and isnum(b):
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
    if k in ("gt", "ge") :
        return ({"gt": "lt", "ge": "le"}[k], b, a)
    return (k, a, b)


def add(a, b):
    if isnum(a) and isnum(b):
        return norm(a + b)
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    return ("+", a, b)


def mul(a, b):
    if isnum(a) and isnum(b):
        return norm(a * b)
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 1:
                return y
            if x == 0:
                return 0
    return ("*", a, b)


def div(a, b):
    if isnum(a) and isnum(b) and b:
        return norm(Fraction(a) / Fraction(b))
    if isnum(b) and b == 1:
        return a
    return ("/", a, b)


def norm(x):
    x = Fraction(x)
    return int(x) if x.denominator == 1 else x


def show(t, depth=6):
    if isinstance(t, tuple):
        if depth == 0:
            return ".."
        return "(" + " ".join(show(x, depth - 1) for x in t) + ")"
    return str(t)
