"""Summaries of functions that walk arrays with cursors: matx with memory behind pointers, for inductive arguments about one loop."""
from matx import *
import matx


def as_ptr(v):
    return v if isinstance(v, tuple) and v[0] == "ptr" else ("ptr", ("at", v), 0)


class Cursors(Machine):
    def load(self, p, ptr, ty):
        v = as_ptr(ptr)
        if (v[1], v[2]) in p.mem:
            return p.mem[(v[1], v[2])]
        if v[1][0] in ("at", "data"):
            return ("load", v[1], v[2])
        return super().load(p, v, ty)

    def plain(self, p, i):
        op = i["op"]
        if op in ("load", "gep"):
            b = self.val(p, i["ops"][0])
            if not (isinstance(b, tuple) and b[0] == "ptr"):
                b = as_ptr(b)
                if op == "load":
                    return self.load(p, b, i["ty"])
                off = i.get("off", 0)
                for x, k in i.get("vo", []):
                    off = add(off, mul(self.val(p, x), k))
                return ("ptr", b[1], add(b[2], off))
        if op == "store":
            v, d = self.val(p, i["ops"][0]), as_ptr(self.val(p, i["ops"][1]))
            if d[1][0] in ("at", "data"):
                p.mem[(d[1], d[2])] = v
                p.events.append(("store", d[1], d[2], v))
                return None
        if op == "ptrtoint":
            return self.val(p, i["ops"][0])
        if op in ("sub",):
            v = [self.val(p, x) for x in i["ops"][:2]]
            if any(isinstance(x, tuple) and x[0] == "ptr" for x in v):
                return ("-", v[0], v[1])
        return super().plain(p, i)

    def named(self, p, i, d, a):
        nm = base_name(d)
        short = nm.split("::")[-1]
        if short in ("begin", "begin_const", "end", "end_const") and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "ptr":
            b = ("ptr", ("data", a[0][1], a[0][2]), 0)
            if short.startswith("end"):
                b = ("ptr", b[1], ("end", a[0][1], a[0][2]))
            p.env[i["id"]] = b
            return None
        m = re.match(r"(?:.*[ &*])?tensor::(?:Vector|Tensor)<(long|double|std::complex<double>)>::(at|operator\[\])\(long\)", d)
        o = [self.val(p, x) for x in i["ops"]]
        if m and len(o) == 2 and isinstance(o[0], tuple) and o[0][0] == "ptr" and o[0][1:] not in ((("arg", 1), 0), (("arg", 2), 0)):
            p.env[i["id"]] = ("ptr", ("data", o[0][1], o[0][2]), mul(o[1], 16 if "complex" in m.group(1) else 8))
            return None
        if short == "copy" and len(a) == 3:
            p.events.append(("copy",) + tuple(map(as_ptr, a)))
            p.env[i["id"]] = ("unk", "end of copy")
            return None
        if re.search(r"(^|::)Sparse::Sparse$", nm) and len(a) > 2:
            p.events.append(("known", tuple((k, v) for k, v in p.mem.items() if isinstance(v, tuple) and v[0] == "ctor")))
            p.events.append(("sparse",) + tuple(a))
            p.mem[(a[0][1], a[0][2])] = ("sparse",)
            return None
        return super().named(p, i, d, a)

    def intrinsic(self, p, i):
        n = i["intr"]
        if n in ("llvm.memcpy", "llvm.memmove"):
            a = [self.val(p, x) for x in i["ops"]]
            d, s = as_ptr(a[0]), as_ptr(a[1])
            if isnum(a[2]) and a[2] <= 64:
                for k in range(0, int(a[2]), 8):
                    v = self.load(p, ("ptr", s[1], add(s[2], k)), "double")
                    p.mem[(d[1], add(d[2], k))] = v
                    if d[1][0] in ("at", "data"):
                        p.events.append(("store", d[1], add(d[2], k), v))
                return None
            p.events.append(("copied", d, s, a[2]))
            return None
        return super().intrinsic(p, i)

    def argument(self, p, t, a):
        if t.endswith("&") and a and isinstance(a[0], tuple) and a[0][0] != "ptr":
            a[0] = as_ptr(a[0])
            if not re.search(r"std::complex<double>|^(const )?(double|long|int|unsigned|bool|float)\b", t):
                raise Unknown("reference to " + t)
        return super().argument(p, t, a)
