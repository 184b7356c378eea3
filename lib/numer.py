"""Are two closed forms that differ symbolically nevertheless the same real function?

Only used to *withdraw* a disagreement: when both sides use library functions (sqrt, fabs, hypot, ...),
quotients or extrema, distinct normal forms may still denote one function.  The normal forms (not the program)
are evaluated at fixed sample points; if they agree at every point the comparison counts as undecided."""
import cmath, math, hashlib
from poly import *

NUMF = {"fn", "inv", "rset", "min", "max", "smax", "smin", "b2i", "red", "div", "mod"}


class No(Exception):
    pass


def leaf(i, seed):
    h = hashlib.md5(("%d:%s" % (seed, show(P({(i,): 1})))).encode()).digest()
    x = int.from_bytes(h[:6], "big") / float(1 << 48)
    return (0.3 + 2.5 * x) * (1 if h[7] & 1 else -1)


FN = {
    "fabs": abs, "llvm.fabs": abs, "abs": abs, "sqrt": lambda x: math.sqrt(x), "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "floor": math.floor, "ceil": math.ceil, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
    "pow": lambda x, y: x ** y, "hypot": math.hypot, "cabs": math.hypot, "fmin": min, "fmax": max, "minnum": min, "maxnum": max, "atan2": math.atan2, "atan": math.atan,
    "asin": math.asin, "acos": math.acos, "expm1": math.expm1, "log1p": math.log1p, "exp2": lambda x: 2.0 ** x, "log2": math.log2, "log10": math.log10, "trunc": math.trunc,
}
CFN = {"csqrt": cmath.sqrt, "cexp": cmath.exp, "clog": cmath.log, "csin": cmath.sin, "ccos": cmath.cos, "ctan": cmath.tan, "csinh": cmath.sinh, "ccosh": cmath.cosh, "ctanh": cmath.tanh}


def ev(p, seed, memo):
    r = 0.0
    for m, c in p.t.items():
        v = float(c)
        for i in m:
            v *= at(i, seed, memo)
        r += v
    return r


def at(i, seed, memo):
    if i in memo:
        return memo[i]
    a = atom(i)
    k = a[0]
    E = lambda x: ev(x, seed, memo)
    if k == "inv":
        v = 1.0 / E(a[1])
    elif k == "fn":
        nm = a[1].split(".")[-2] if a[1].startswith("llvm.") and a[1].count(".") >= 2 else a[1].replace("llvm.", "")
        if nm in CFN and len(a) == 5:
            z = CFN[nm](complex(E(a[2]), E(a[3])))
            v = z.real if a[4] == 0 else z.imag
        elif nm in FN and all(isinstance(x, P) for x in a[2:]):
            v = float(FN[nm](*[E(x) for x in a[2:]]))
        else:
            raise No()
    elif k == "rset":
        v = (min if a[1] == "min" else max)(E(x) for x in a[2:])
    elif k in ("min", "smin"):
        v = min(E(x) for x in a[1:])
    elif k in ("max", "smax"):
        v = max(E(x) for x in a[1:])
    elif k == "b2i":
        v = 1.0 if cond(a[1], seed, memo) else 0.0
    elif k in ("ld", "arg", "vsize", "argp", "ldp", "buf", "iv"):
        v = leaf(i, seed)
    else:
        raise No()
    memo[i] = v
    return v


def cond(c, seed, memo):
    k = c[0]
    E = lambda x: ev(x, seed, memo)
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "and":
        return all(cond(x, seed, memo) for x in c[1:])
    if k == "or":
        return any(cond(x, seed, memo) for x in c[1:])
    if k == "ge":
        return E(c[1]) >= 0
    if k == "f":
        x, y = E(c[2]), E(c[3])
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[c[1][1:]]
    raise No()


def agree(d, n=24):
    """d: difference of two closed forms.  True: zero at every sample; False: not; None: cannot be evaluated"""
    good = 0
    for seed in range(n):
        memo = {}
        try:
            v = ev(d, seed, memo)
            scale = 1.0
            for m, c in d.t.items():
                t = abs(float(c))
                for i in m:
                    t *= abs(at(i, seed, memo))
                scale = max(scale, t)
        except (No, KeyError, TypeError):
            return None
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if not abs(v) <= 1e-9 * scale:
            return False
        good += 1
    return True if good >= 3 else None


def special(d):
    return any(atom(i)[0] in NUMF for i in all_atoms(d))
