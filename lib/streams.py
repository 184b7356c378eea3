"""Byte streams: what a path writes to or reads from a file, as a list of items."""
from calls import *

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def plain(x):
    """widened 32-bit unsigned constants of the program"""
    if not isinstance(x, P):
        return x
    z = {i: plain(atom(i)[-1]) for i in x.atoms() if atom(i)[0] == "zext" and isinstance(atom(i)[-1], P)}
    return subst(x, z) if z else x


def strip(name):
    return name.replace(STR, "string").replace("tensor::", "").replace("sdf::", "")


class Item:
    def __init__(self, kind, loc, **k):
        self.kind, self.loc = kind, loc
        self.__dict__.update(k)

    def sig(self):
        return (self.kind,) + tuple((k, show(v) if isinstance(v, P) else repr(v)) for k, v in sorted(self.__dict__.items()) if k in ("n", "T", "val", "ptr", "count", "obj", "name", "src"))

    def __str__(self):
        if self.kind == "loop":
            return "%s times (%s)" % (short(self.count), " ".join(str(x) for x in self.body or []))
        if self.kind == "rec":
            return "record of a " + self.T
        return "%s bytes" % short(self.n)


def short(p):
    s = show(plain(p)) if isinstance(p, P) else str(p)
    return s.replace("_ZN3sdf8DataFile13var_name_sizeE", "var_name_size")[:60]


class Other(Exception):
    pass


class Trace:
    """items of one path; raises Other for operations on the stream outside the algebra"""

    def __init__(self, w, c, eff=None, cs=None, outer=None):
        self.w, self.c = w, c
        self.cs = cs or CState(w, c)
        self.items = []
        self.zero, self.copied = {}, {}      # heap block -> zeroed bytes, (string, count)
        self.strs = dict(outer.strs) if outer else {}          # string object -> ("lit", text) | ("heap", block, position)
        self.subs = {}          # string object -> (string, from, count)
        self.filled = {}         # block -> item read into it
        self.conts = {}
        self.run(c.eff if eff is None else eff)

    def literal(self, g):
        a = g.single() if isinstance(g, P) else None
        if a and a[0] == "g":
            return self.w.unit.text(a[1])
        return None

    def run(self, eff):
        for n, e in enumerate(eff):
            k = e[0]
            if k == "set" and e[2] == ZERO:
                self.zero[e[1]] = plain(e[3])
            elif k == "cpy":
                s = e[2].single() if isinstance(e[2], P) else None
                if s and s[0] == "callp":
                    self.copy(e[1], e[2], e[3])
            elif k == "for":
                self.loop(e)
            elif k == "call":
                self.call(n, e)

    def copy(self, dst, src, cnt):
        s = src.single()
        if s and s[0] == "callp":
            v = atom(list(s[1].atoms())[0]) if isinstance(s[1], P) else s[1]
            m = s[1].single() if isinstance(s[1], P) else s[1]
            if isinstance(m, tuple) and m[0] == "evt" and ("::c_str()" in m[1] or "::data()" in m[1]) and m[2]:
                self.copied[dst] = (m[2][0], plain(cnt))

    def call(self, n, e):
        name, a = e[1], e[2]
        loc = e[3]
        if not isinstance(name, str):
            raise Other("an indirect call")
        s = strip(name)
        if s in ("strncpy", "memcpy", "memmove"):
            self.copy(a[0], a[1], a[2])
        elif s == "memset" and a[1] == ZERO:
            self.zero[a[0]] = plain(a[2])
        elif s.startswith("std::ostream::write("):
            self.write(n, a, loc)
        elif s.startswith("std::istream::read("):
            it = Item("raw", loc, n=plain(a[2]), ptr=a[1], rid=e[5], at=n)
            self.items.append(it)
            self.filled[a[1]] = it
        elif re.match(r"^OutDataFile::dump\(|^InDataFile::load\(", s):
            T = re.match(r"^\w+::\w+\((.*), string const&\)$", s)
            T = re.sub(r" const&$|\*$", "", T.group(1)) if T else "?"
            T = re.sub(r", std::allocator<.*>>$", ">", T)
            self.items.append(Item("rec", loc, T=T, obj=a[1], name=a[2], lit=self.strs.get(a[2]), rid=e[5], at=n))
        elif s.startswith("string::basic_string<") and "(char const*" in s:
            lit = self.literal(a[1])
            if lit is not None:
                self.strs[a[0]] = ("lit", lit)
            elif a[1] in self.filled:
                self.strs[a[0]] = ("stored", self.filled[a[1]])
            else:
                self.strs[a[0]] = ("mem", a[1], n)
        elif s.startswith("string::basic_string()"):
            self.strs[a[0]] = ("lit", "")
        elif s.startswith("string::substr("):
            self.subs[a[0]] = (a[1], a[2], plain(a[3]))
        elif re.match(r"^std::(ostream|istream)::(put|get|getline|ignore|operator|seekp)|^std::.*operator<<|^std::.*operator>>|^std::.*::rdbuf", s):
            if not (isinstance(a[0], P) and any(atom(i)[0] == "g" for i in a[0].atoms())):
                raise Other(s[:60])

    def write(self, n, a, loc):
        ptr, sz = a[1], plain(a[2])
        b = ptr.single() if isinstance(ptr, P) else None
        if ptr in self.copied or ptr in self.zero:
            src, cnt = self.copied.get(ptr, (None, ZERO))
            self.items.append(Item("name", loc, n=sz, src=src, cnt=cnt, zero=self.zero.get(ptr), lit=self.strs.get(src), at=n, blk=ptr))
        elif b and b[0] == "alloca" and sz.const() in (1, 4, 8):
            k = int(sz.const())
            v = self.w.lookup(self.cs, ptr, k, {1: "i8", 4: "i32", 8: "i64"}[k], n)
            self.items.append(Item("val", loc, n=sz, val=v, at=n))
        else:
            self.items.append(Item("mem", loc, n=sz, ptr=ptr, at=n))

    def loop(self, e):
        bodies, seen = [], {}
        for conds, eff in e[3]:
            t = Trace(self.w, self.c, eff, self.cs, self)
            k = tuple(x.sig() for x in t.items)
            if k in seen:
                seen[k][0].append(conds)
            else:
                seen[k] = ([conds], t.items)
                bodies.append(seen[k])
        if not any(b for _, b in bodies):
            return
        self.items.append(Item("loop", None, count=e[2], iv=e[1], body=bodies[0][1], bodies=bodies))
