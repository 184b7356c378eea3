"""Machine words: ranges of what a function returns, and the equations a function establishes between the words of an array."""
import random, struct
from walk import Unknown

WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64}


def single(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


# ---------------------------------------------------------------- ranges
class R:
    """the integers lo..hi modulo 2^w, or the numbers lo..hi"""
    __slots__ = ("lo", "hi", "w")

    def __init__(self, lo, hi, w=0):
        self.lo, self.hi, self.w = lo, hi, w

    def __repr__(self):
        return "%s..%s" % (self.lo, self.hi)

    def unsigned(self):
        m = 1 << self.w
        k = self.lo // m
        return R(self.lo - k * m, self.hi - k * m, self.w) if self.hi // m == k else R(0, m - 1, self.w)

    def signed(self):
        m, h = 1 << self.w, 1 << (self.w - 1)
        k = (self.lo + h) // m
        return R(self.lo - k * m, self.hi - k * m, self.w) if (self.hi + h) // m == k else R(-h, h - 1, self.w)

    def point(self):
        return self.lo == self.hi


def join(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return tuple(join(x, y) for x, y in zip(a, b))
    if a.w:
        a1, b1 = a.unsigned(), b.unsigned()
        a2, b2 = a.signed(), b.signed()
        u, s = R(min(a1.lo, b1.lo), max(a1.hi, b1.hi), a.w), R(min(a2.lo, b2.lo), max(a2.hi, b2.hi), a.w)
        return u if u.hi - u.lo <= s.hi - s.lo else s
    return R(min(a.lo, b.lo), max(a.hi, b.hi), 0)


class Ranges:
    """forward interval analysis of a function without loops; contracts: callee -> function of the ranges of its arguments"""

    def __init__(self, f, unit, contracts):
        self.f, self.unit, self.contracts = f, unit, contracts
        self.b = {b["id"]: b for b in f["blocks"]}
        if f["loops"]:
            raise Unknown("a loop")

    def run(self, args):
        self.out, self.n, self.mem = None, 0, {}
        self.walk(0, None, {a["id"]: x for a, x in zip(self.f["args"], args)}, {})
        if self.out is None:
            raise Unknown("no way to return")
        return self.out

    def val(self, env, v):
        if isinstance(v, int):
            if v not in env:
                raise Unknown("value")
            return env[v]
        if v[0] == "ci":
            return R(v[1], v[1], v[2])
        if v[0] == "cf":
            return R(float(v[1]), float(v[1]))
        raise Unknown("operand %s" % v[0])

    def walk(self, blk, frm, env, mem):
        self.n += 1
        if self.n > 500:
            raise Unknown("too many ways")
        env, mem = dict(env), dict(mem)
        b = self.b[blk]
        new = {}
        for i in b["ins"]:
            if i["op"] == "phi":
                new[i["id"]] = self.val(env, next(v for k, v in i["ops"] if k == frm))
        env.update(new)
        for i in b["ins"]:
            op = i["op"]
            if op == "phi":
                continue
            if op == "ret":
                r = self.val(env, i["ops"][0])
                self.out = r if self.out is None else join(self.out, r)
                return
            if op == "br":
                if len(i["ops"]) == 1:
                    return self.walk(i["ops"][0][1], blk, env, mem)
                c = self.val(env, i["ops"][0]).unsigned()
                # operands of a conditional branch: condition, otherwise, then
                if c.hi:
                    self.walk(i["ops"][2][1], blk, env, mem)
                if not c.lo:
                    self.walk(i["ops"][1][1], blk, env, mem)
                return
            if op == "alloca":
                env[i["id"]] = ("slot", i["id"])
            elif op == "store" and isinstance(i["ops"][1], int) and isinstance(env.get(i["ops"][1]), tuple):
                mem[env[i["ops"][1]]] = self.val(env, i["ops"][0])
            elif op == "load" and isinstance(i["ops"][0], int) and env.get(i["ops"][0]) in mem:
                env[i["id"]] = mem[env[i["ops"][0]]]
            elif op == "unreachable":
                return
            else:
                x = self.instr(i, env, mem)
                if x is not None:
                    env[i["id"]] = x

    def instr(self, i, env, mem):
        op, ty = i["op"], i.get("ty")
        if op == "call":
            d = self.unit.dem(i["callee"]) if "callee" in i else "?"
            f = self.contracts(d)
            if f is None:
                raise Unknown("call of " + d[:60])
            a = []
            for v in i["ops"]:
                x = self.val(env, v)
                a.append(mem.get(x, x) if isinstance(x, tuple) and x and x[0] == "slot" else x)
            return f(a)
        if op not in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "trunc", "zext", "sext", "uitofp", "sitofp", "fptoui", "fptosi", "fptrunc", "fpext",
                      "fadd", "fsub", "fmul", "fdiv", "fneg", "icmp", "fcmp", "select", "insertvalue", "extractvalue", "freeze"):
            raise Unknown(op)
        x = [self.val(env, v) if not (isinstance(v, list) and v[0] in ("undef", "poison")) else None for v in i["ops"] if not (isinstance(v, list) and v[0] == "idx")]
        w = WIDTH.get(ty, 0)
        if op in ("insertvalue", "extractvalue"):
            raise Unknown(op)
        if op == "freeze":
            return x[0]
        if op == "select":
            c = x[0].unsigned()
            return x[1] if c.lo else x[2] if not c.hi else join(x[1], x[2])
        if op in ("icmp", "fcmp"):
            p = i["pred"]
            a, b = x[:2]
            if op == "icmp":
                a, b = (a.signed(), b.signed()) if p[0] == "s" else (a.unsigned(), b.unsigned())
                p = {"eq": "eq", "ne": "ne"}.get(p, p[1:])
            else:
                p = p[1:]
            t, n = {"lt": (a.hi < b.lo, a.lo >= b.hi), "le": (a.hi <= b.lo, a.lo > b.hi), "gt": (a.lo > b.hi, a.hi <= b.lo), "ge": (a.lo >= b.hi, a.hi < b.lo),
                    "eq": (a.point() and b.point() and a.lo == b.lo, a.hi < b.lo or a.lo > b.hi), "ne": (a.hi < b.lo or a.lo > b.hi, a.point() and b.point() and a.lo == b.lo)}[p]
            return R(int(t), int(not n), 1)
        if op[0] == "f" and op not in ("fptoui", "fptosi", "fptrunc", "fpext"):
            rnd = single if ty == "float" else (lambda z: z)
            if op == "fneg":
                return R(-x[0].hi, -x[0].lo)
            f = {"fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fmul": lambda a, b: a * b, "fdiv": lambda a, b: a / b}[op]
            if op == "fdiv" and x[1].lo <= 0 <= x[1].hi:
                raise Unknown("division")
            c = [rnd(f(a, b)) for a in (x[0].lo, x[0].hi) for b in (x[1].lo, x[1].hi)]
            return R(min(c), max(c))
        if op in ("fptrunc", "fpext"):
            return R(single(x[0].lo), single(x[0].hi)) if op == "fptrunc" else x[0]
        if op in ("uitofp", "sitofp"):
            a = x[0].unsigned() if op[0] == "u" else x[0].signed()
            rnd = single if ty == "float" else float
            return R(rnd(float(a.lo)), rnd(float(a.hi)))
        if op in ("fptoui", "fptosi"):
            return R(int(x[0].lo), int(x[0].hi), w)
        if op == "trunc":
            return R(x[0].lo, x[0].hi, w) if x[0].hi - x[0].lo < 1 << w else R(0, (1 << w) - 1, w)
        if op in ("zext", "sext"):
            a = x[0].unsigned() if op == "zext" else x[0].signed()
            return R(a.lo, a.hi, w)
        a, b = x[:2]
        full = R(0, (1 << w) - 1, w)
        fit = lambda lo, hi: R(lo, hi, w) if hi - lo < 1 << w else full
        if op == "add":
            return fit(a.lo + b.lo, a.hi + b.hi)
        if op == "sub":
            return fit(a.lo - b.hi, a.hi - b.lo)
        if op in ("mul", "shl"):
            if op == "shl":
                b = b.unsigned()
                b = R(1 << b.lo, 1 << b.hi, w)
            c = [p * q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
            return fit(min(c), max(c))
        if op == "lshr":
            a, b = a.unsigned(), b.unsigned()
            return R(a.lo >> b.hi, a.hi >> b.lo, w)
        if op == "ashr":
            a, b = a.signed(), b.unsigned()
            return R(min(a.lo >> b.lo, a.lo >> b.hi), max(a.hi >> b.lo, a.hi >> b.hi), w)
        if op in ("udiv", "urem"):
            a, b = a.unsigned(), b.unsigned()
            if b.lo <= 0:
                raise Unknown("division")
            if op == "udiv":
                return R(a.lo // b.hi, a.hi // b.lo, w)
            return a if a.hi < b.lo else R(0, min(a.hi, b.hi - 1), w)
        if op in ("sdiv", "srem"):
            a, b = a.signed(), b.signed()
            m = max(abs(b.lo), abs(b.hi))
            if b.lo <= 0 <= b.hi:
                raise Unknown("division")
            if op == "srem":
                if a.lo >= 0 and a.hi < min(abs(b.lo), abs(b.hi)):
                    return a
                return R(max(a.lo, 1 - m) if a.lo < 0 else 0, min(a.hi, m - 1) if a.hi > 0 else 0, w)
            q = lambda p, d: abs(p) // abs(d) * (1 if (p < 0) == (d < 0) else -1)
            c = [q(p, d) for p in (a.lo, a.hi, 0 if a.lo < 0 < a.hi else a.lo) for d in (b.lo, b.hi)]
            return R(min(c), max(c), w)
        if op == "and":
            a, b = a.unsigned(), b.unsigned()
            if a.point() and b.point():
                return R(a.lo & b.lo, a.lo & b.lo, w)
            return R(0, min(a.hi, b.hi), w)
        if op in ("or", "xor"):
            a, b = a.unsigned(), b.unsigned()
            if a.point() and b.point():
                v = a.lo | b.lo if op == "or" else a.lo ^ b.lo
                return R(v, v, w)
            return R(max(a.lo, b.lo) if op == "or" else 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, w)
        raise Unknown(op)


# ---------------------------------------------------------------- equations
def ev(t, leaf):
    """value of a term over words; leaf gives the words it starts from"""
    if isinstance(t, int):
        return t
    k = t[0]
    if k in ("arg", "old", "new", "call"):
        return leaf(t)
    w = t[1]
    m = (1 << w) - 1
    x = [ev(z, leaf) for z in t[2:]] if k not in ("icmp", "select") else None
    if k == "select":
        return ev(t[3] if ev(t[2], leaf) & 1 else t[4], leaf)
    if k == "icmp":
        p, n = t[2], t[3]
        a, b = ev(t[4], leaf), ev(t[5], leaf)
        a, b = (sgn(a, n), sgn(b, n)) if p[0] == "s" else (a & ((1 << n) - 1), b & ((1 << n) - 1))
        return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[p if p in ("eq", "ne") else p[1:]])
    if k == "add":
        return (x[0] + x[1]) & m
    if k == "sub":
        return (x[0] - x[1]) & m
    if k == "mul":
        return (x[0] * x[1]) & m
    if k == "and":
        return x[0] & x[1] & m
    if k == "or":
        return (x[0] | x[1]) & m
    if k == "xor":
        return (x[0] ^ x[1]) & m
    if k == "shl":
        return (x[0] << (x[1] & m)) & m if x[1] & m < w else 0
    if k == "lshr":
        return (x[0] & m) >> (x[1] & m)
    if k == "ashr":
        return (sgn(x[0], w) >> (x[1] & m)) & m
    if k == "trunc":
        return x[0] & m
    if k == "zext":
        return x[0] & ((1 << x[1]) - 1)
    if k == "sext":
        return sgn(x[0], x[1]) & m
    if k in ("udiv", "urem") and x[1] & m:
        a, b = x[0] & m, x[1] & m
        return a // b if k == "udiv" else a % b
    if k in ("sdiv", "srem") and x[1] & m:
        a, b = sgn(x[0], w), sgn(x[1], w)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return (q if k == "sdiv" else a - q * b) & m
    raise Unknown(k)


def const(t):
    try:
        return ev(t, fails)
    except (Unknown, KeyError):
        return None


def fails(t):
    raise Unknown("not constant")


class Way:
    """one way through a function: conditions, equations ((base, offset), term over words on entry and earlier equations) in order, what is returned"""

    def __init__(self):
        self.conds, self.cells, self.eqs, self.ret, self.calls = [], {}, [], None, []

    def clone(self):
        w = Way()
        w.conds, w.cells, w.eqs, w.ret, w.calls = list(self.conds), dict(self.cells), list(self.eqs), self.ret, list(self.calls)
        return w


class Equations:
    """Loops are taken as one step in their counters, instantiated at the values these run over; loops whose bounds are not constant are not resolved."""

    def __init__(self, f, unit, effect=None, cut=None, limit=1500):
        self.f, self.unit, self.effect, self.limit, self.cut = f, unit, effect or (lambda w, d, a: None), limit, cut
        self.b = {b["id"]: b for b in f["blocks"]}
        self.consts = {}
        stored = set()
        for g in unit.j["functions"]:
            for b in g["blocks"]:
                for i in b["ins"]:
                    if i["op"] == "store":
                        a = i["ops"][1]
                        while isinstance(a, list) and a[0] == "gep":
                            a = a[1]
                        if isinstance(a, int):
                            a = self.root(g, a)
                        if isinstance(a, list) and a[0] == "g":
                            stored.add(a[1])
        for g in unit.j["globals"]:
            if len(g) > 4 and g[4] and g[4][0] in ("cds", "ca") and g[0] not in stored:
                if all(x[0] == "ci" for x in g[4][1:]):
                    self.consts[g[0]] = [x[1] & ((1 << x[2]) - 1) for x in g[4][1:]]
        self.steps = 0
        self.sizes = {}
        self.ways = []

    def root(self, g, a):
        for b in g["blocks"]:
            for i in b["ins"]:
                if i["id"] == a and i["op"] == "gep":
                    x = i["ops"][0]
                    while isinstance(x, list) and x[0] == "gep":
                        x = x[1]
                    return self.root(g, x) if isinstance(x, int) else x
        return None

    def run(self):
        w = Way()
        self.walk(0, None, {a["id"]: ("arg", k) for k, a in enumerate(self.f["args"])}, w)
        return self.ways

    def val(self, env, v):
        if isinstance(v, int):
            if v not in env:
                raise Unknown("value")
            return env[v]
        if v[0] == "ci":
            return v[1] & ((1 << v[2]) - 1)
        if v[0] == "g":
            return ("ptr", v[1], 0)
        if v[0] == "gep":
            p = self.val(env, v[1])
            return ("ptr", p[1], add(p[2], v[2]))
        if v[0] == "null":
            return 0
        raise Unknown("operand %s" % v[0])

    def walk(self, blk, frm, env, w):
        env = dict(env)
        while True:
            self.steps += 1
            if self.steps > 40000 or len(self.ways) > 60:
                raise Unknown("too many steps")
            b = self.b[blk]
            new = {}
            for i in b["ins"]:
                if i["op"] == "phi":
                    new[i["id"]] = self.val(env, next(v for k, v in i["ops"] if k == frm))
            env.update(new)
            nxt = None
            for i in b["ins"]:
                op = i["op"]
                if op == "phi":
                    continue
                if op == "ret":
                    w.ret = self.val(env, i["ops"][0]) if i["ops"] else None
                    self.ways.append(w)
                    return
                if op == "unreachable":
                    return
                if op == "br":
                    if len(i["ops"]) == 1:
                        nxt = i["ops"][0][1]
                        break
                    c = self.val(env, i["ops"][0])
                    k = const(c)
                    if k is None:
                        if any(c == c2 for c2, _ in w.conds):
                            k = next(v for c2, v in w.conds if c2 == c)
                        elif self.cut and b.get("loop", -1) >= 0:
                            raise Unknown("a loop without constant bounds")
                    if k is None:
                        w2 = w.clone()
                        w2.conds.append((c, 0))
                        self.walk(i["ops"][1][1], blk, env, w2)
                        w.conds.append((c, 1))
                        k = 1
                    nxt = i["ops"][2][1] if k & 1 else i["ops"][1][1]
                    break
                self.instr(i, env, w)
            if nxt is None:
                raise Unknown("end of block")
            frm, blk = blk, nxt

    def instr(self, i, env, w):
        op, ty = i["op"], i.get("ty")
        wd = WIDTH.get(ty, 0)
        if op == "alloca":
            env[i["id"]] = ("ptr", ("slot", i["id"]), 0)
        elif op == "gep":
            p = self.val(env, i["ops"][0])
            if not (isinstance(p, tuple) and p[0] == "ptr"):
                p = ("ptr", ("at", p), 0)
            o = add(p[2], i.get("off", 0))
            for v, s in i.get("vo", []):
                x = self.val(env, v)
                o = add(o, ("mul", 64, x, s) if not isinstance(x, int) else sgn(x, 64) * s)
            env[i["id"]] = ("ptr", p[1], o)
        elif op == "load":
            p = self.val(env, i["ops"][0])
            if not (isinstance(p, tuple) and p[0] == "ptr"):
                p = ("ptr", ("at", p), 0)
            env[i["id"]] = self.load(w, p, wd)
        elif op == "store":
            p = self.val(env, i["ops"][1])
            if not (isinstance(p, tuple) and p[0] == "ptr"):
                p = ("ptr", ("at", p), 0)
            o = const(p[2])
            if o is None:
                raise Unknown("a store at an unknown place")
            key, t = (p[1], sgn(o, 64)), self.val(env, i["ops"][0])
            if isinstance(t, tuple) and t[0] not in ("ptr", "arg", "call") and isinstance(p[1], str):
                w.eqs.append((key, t))
                t = ("new", WIDTH.get(i.get("vty"), 64), len(w.eqs) - 1)
            elif isinstance(p[1], str):
                w.eqs.append((key, t))
            w.cells[key] = t
        elif op == "call":
            d = self.unit.dem(i["callee"]) if "callee" in i else "?"
            if d.startswith("llvm."):
                return
            a = [self.val(env, v) for v in i["ops"]]
            w.calls.append((d, a))
            r = self.effect(w, d, a)
            if r is None and ty:
                r = ("call", d, len(w.calls))
            if ty:
                env[i["id"]] = r
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            self.put(env, i, w, (op, wd, self.val(env, i["ops"][0]), self.val(env, i["ops"][1])))
        elif op == "trunc":
            self.put(env, i, w, (op, wd, self.val(env, i["ops"][0])))
        elif op in ("zext", "sext"):
            self.put(env, i, w, (op, wd, self.val(env, i["ops"][0]), self.width(i["ops"][0])))
        elif op == "icmp":
            a, b = (self.val(env, v) for v in i["ops"][:2])
            n = max(self.width(v) for v in i["ops"][:2])
            self.put(env, i, w, ("icmp", 1, i["pred"], n, a, b))
        elif op == "select":
            self.put(env, i, w, ("select", wd) + tuple(self.val(env, v) for v in i["ops"][:3]))
        elif op == "freeze":
            env[i["id"]] = self.val(env, i["ops"][0])
        else:
            raise Unknown(op)

    def width(self, v):
        if isinstance(v, list):
            return v[2] if v[0] == "ci" else 64
        if not hasattr(self, "types"):
            self.types = {a["id"]: a["ty"] for a in self.f["args"]}
            for b in self.f["blocks"]:
                for i in b["ins"]:
                    if "ty" in i:
                        self.types[i["id"]] = i["ty"]
        w = WIDTH.get(self.types.get(v), 0)
        if not w:
            raise Unknown("width")
        return w

    def put(self, env, i, w, t):
        if t[0] != "icmp" or not any(isinstance(x, tuple) and x[0] == "ptr" for x in t[4:]):
            k = const(t)
            n = 1 + sum(self.sizes.get(id(x), (0, 1))[1] for x in t if isinstance(x, tuple))
            if k is None and n > 150 and t[1] > 1:
                # named, so that terms shared many times do not grow
                w.eqs.append((None, t))
                t, n = ("new", t[1], len(w.eqs) - 1), 1
            self.sizes[id(t)] = (t, n)
            env[i["id"]] = t if k is None else k
        else:
            env[i["id"]] = t

    def load(self, w, p, wd):
        o = const(p[2])
        if p[1] in self.consts:
            tab = self.consts[p[1]]
            if o is not None:
                if o % (wd // 8) or not 0 <= o // (wd // 8) < len(tab):
                    raise Unknown("table")
                return tab[o // (wd // 8)]
            r = tab[-1]
            for k in range(len(tab) - 2, -1, -1):
                r = ("select", wd, ("icmp", 1, "eq", 64, p[2], k * (wd // 8)), tab[k], r)
            return r
        if o is None:
            if any(b == p[1] for b, _ in w.cells):
                # a place among those written: the one the index selects
                raise Unknown("a load at an unknown place")
            return ("old", wd, p[1], p[2])
        o = sgn(o, 64)
        if (p[1], o) in w.cells:
            return w.cells[(p[1], o)]
        return ("old", wd, p[1], o)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return a if b == 0 else b if a == 0 else ("add", 64, a, b)
