"""What a tensor holds in terms of the calls that produced it: views, decompositions, maps of other tensors."""
from spec import *
from walk import base_of, subst, touched
from calls import *
from lapack import *

NAME = re.compile(r"^([\w:~<>, .*&]*?[\w~>])(\(|$)")
VIEW = re.compile(r"^tensor::Tensor<[^()]*>::operator\(\)\((tensor::PRange(, )?)+\) const$")
CONV = re.compile(r"::view::operator tensor::Tensor<.*>\(\) const$")
EIG = re.compile(r"^linalg::eig\(")


class Terms:
    def __init__(self, w, c, eff=None):
        self.w, self.c = w, c
        self.eff = c.eff if eff is None else eff
        self.end = len(self.eff)

    def state(self, n):
        s = CState(self.w, self.c)
        s.eff = self.eff[:n]
        return s

    def range(self, p, n):
        """the range object at p"""
        for k in range(n - 1, -1, -1):
            e = self.eff[k]
            if e[0] == "call" and isinstance(e[1], str) and e[2] and e[2][0] == p:
                if e[1].startswith("tensor::FullRange::FullRange("):
                    return ("full",)
                if e[1].startswith("tensor::SingleRange::SingleRange("):
                    return ("one", untrunc(e[2][1]))
                if e[1].startswith("tensor::StepRange::StepRange("):
                    return ("step",) + tuple(untrunc(x) for x in e[2][1:4])
                if e[1].startswith("tensor::IndexRange::IndexRange("):
                    return ("list", e[2][1], k)
                return ("?", e[1])
        return ("?", "range")

    def buffer(self, b, n):
        """the tensor a buffer belongs to"""
        a = b.single() if isinstance(b, P) else None
        if a is None or a[0] != "buf":
            return ("?", "buffer")
        if isinstance(a[1], P) and (a[1].single() or (0,))[0] == "evt" and len(a) > 3:
            for k in range(n - 1, -1, -1):
                e = self.eff[k]
                if e[0] == "call" and len(e) > 5 and e[5] == a[1]:
                    return self.tensor(e[2][int(a[2])], k + 1)
            return ("?", "event")
        return self.tensor(a[1], n)

    def tensor(self, addr, n=None):
        n = self.end if n is None else n
        base = base_of(addr)[0]
        for k in range(n - 1, -1, -1):
            e = self.eff[k]
            if e[0] == "vcopy" and e[4] == addr:
                return self.tensor(e[5], k)
            if e[0] in ("map", "vnew") and (e[3] if e[0] == "vnew" else None) == addr:
                return self.lifted(e[1], k, n) or ("built", e[1], k)
            if e[0] == "map":
                a = e[1].single()
                if a and a[0] == "buf" and a[1] == addr:
                    return ("map", e[6], tuple(e[5]), tuple(self.buffer(b, k) for b, _ in e[4]))
            if e[0] == "call":
                t = self.call(e, addr, k)
                if t is not None:
                    return t
            if e[0] == "for":
                if base in touched(e) or None in touched(e):
                    return ("?", "a loop")
            if e[0] == "havoc" and base in e[1]:
                # by the call before it, which is not known to give a tensor here
                p = self.eff[k - 1] if k else None
                if p is not None and p[0] == "call" and self.call(p, addr, k - 1) is not None:
                    continue
                return ("?", "changed by " + str(p[1] if p is not None and p[0] == "call" else "?")[:60])
        return ("arg", addr)

    def lifted(self, buf, k, n):
        """a complex array filled with real values"""
        base = list(buf.atoms())[0]
        got = None
        for m in range(k + 1, n):
            e = self.eff[m]
            if e[0] == "for" and base in touched(e):
                if got is not None or len(e[3]) != 1 or e[3][0][0]:
                    return None
                st = [x for x in e[3][0][1]]
                if len(st) != 2 or any(x[0] != "st" for x in st):
                    return None
                i = P({(e[1],): 1})
                v = {str(show(x[1] - buf)): x[3] for x in st}
                a, b = v.get(str(show(i.scale(16)))), v.get(str(show(i.scale(16) + 8)))
                a = a.single() if isinstance(a, P) else None
                if a is None or b is None or b.const() != 0 or a[0] not in ("ld", "ldv"):
                    return None
                src, o = base_of(a[2])
                if src is None or o != i.scale(8):
                    return None
                got = ("map", "complex", (), (self.buffer(P({(src,): 1}), m),))
            elif e[0] in ("st", "cpy", "set", "map", "vcopy") and base_of(e[1])[0] == base:
                return None
        return got

    def call(self, e, addr, k):
        f, a = e[1], e[2]
        if not isinstance(f, str):
            return ("apply", f, tuple(a), k) if a and a[0] == addr else None
        if VIEW.match(f) and a[0] == addr:
            return ("part", self.tensor(a[1], k), tuple(self.range(x, k) for x in a[2:]))
        if CONV.search(f) and a[0] == addr:
            return self.tensor(a[1], k)
        if EIG.match(f) and addr in (a[0], a[2], a[3]):
            return ("eig", {0: "values", 2: "right", 3: "left"}[list(a).index(addr)], self.tensor(a[1], k))
        if a and a[0] == addr and not f.endswith(" const") and "::~" not in f:
            return ("call", f, tuple(a[1:]), k)
        return None
