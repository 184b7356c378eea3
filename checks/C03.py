"""Elementwise functions, conversions and filled constructors."""
from framework import *
from walk import mkext

PROBE = os.path.join(VERIF, "probe", "ops.cc")
UNARY = ["abs", "cos", "cosh", "exp", "log", "sin", "sinh", "sqrt", "tan", "tanh"]
LIBM = {"abs": "fabs"}


def fnval(name, re_, im, cplx):
    """what the C math library function of that name gives"""
    if not cplx:
        return (P.a("fn", LIBM.get(name, name), re_), ZERO)
    if name == "abs":
        return (P.a("fn", "cabs", re_, im), ZERO)
    return (P.a("fn", "c" + name, re_, im, 0), P.a("fn", "c" + name, re_, im, 1))


def nonneg(F, xs):
    """extents are never negative: those paths are outside the specification"""
    for x in xs:
        if F.ge0(-x - 1):
            return None
        F = F.add(cge(x))
    return F


def run(ctx):
    ctx.rule("elementwise function", "the result has the extents of the argument and element i is f(a[i]), f the C/C++ library function of the same name")
    ctx.rule("conversion", "real, imag, conj, to_complex act element by element and keep the extents")
    ctx.rule("fill", "fill_with, zeros, ones and eye produce exactly the stated constants in the stated extents")
    ctx.rule("index list", "iota, concatenation and index_to_tensor list the stated numbers in order")
    n = 0
    for fn in ctx.get(r"^tensor::(%s|round|real|imag|conj|to_complex)\(tensor::Tensor" % "|".join(UNARY)):
        name = re.match(r"^tensor::(\w+)\(", fn.dem).group(1)
        tens = [tensor_arg(a) for a in fn.sig.args]
        if None in tens or not fn.sig.ok:
            continue
        n += 1
        t = tens[0]

        def val(i, name=name, tens=tens, t=t):
            re_, im = t.val(i)
            if name == "real":
                return (re_, ZERO)
            if name == "imag":
                return (im, ZERO)
            if name == "conj":
                return (re_, -im)
            if name == "to_complex":
                return (re_, im) if len(tens) == 1 else (re_, tens[1].el(i))
            if name == "round":
                return (P.a("fn", "round", re_), ZERO)
            return fnval(name, re_, im, t.cplx)
        elty = "std::complex<double>" if (name == "to_complex" or (t.cplx and name not in ("abs", "real", "imag"))) else "double"
        rule = "conversion" if name in ("real", "imag", "conj", "to_complex") else "elementwise function"

        def specf(c, F, t=t, tens=tens, val=val):
            if len(tens) == 2 and not F.eq0(tens[0].size - tens[1].size):
                # the sizes are a precondition of this overload
                F = F.add(ceq(tens[0].size - tens[1].size))
            return dict(dims=t, size=t.size, pieces=[SPiece([t.size], val)], facts=F)
        check_tensor_result(ctx, fn, rule, specf, elty, tens=tens)
    if n < 24:
        raise AnalysisError("only %d elementwise functions found" % n)
    for fn in ctx.get(r"^tensor::(real|conj|to_complex)\(tensor::Tensor<.*> const&\)", srcs=[PROBE]):
        name = re.match(r"^tensor::(\w+)\(", fn.dem).group(1)
        t = tensor_arg(fn.sig.args[0])
        if fn.f["linkage"] in (0,) or (name == "real") == t.cplx or (name == "conj" and t.cplx) or (name == "to_complex" and not t.cplx):
            continue
        check_tensor_result(ctx, fn, "conversion", lambda c, F: dict(dims=t, size=t.size, pieces=[SPiece([t.size], t.val)]), t.elty, tens=[t])
    fills(ctx)
    lists(ctx)


def fills(ctx):
    n = 0
    for fn in ctx.get(r"^tensor::Tensor<(double|std::complex<double>)>::(zeros|ones|eye|fill_with)\("):
        name = re.search(r"::(zeros|ones|eye|fill_with)\(", fn.dem).group(1)
        elty = "std::complex<double>" if "complex" in fn.dem.split("::" + name)[0] else "double"
        n += 1
        if name == "fill_with":
            t = Ten(fn.sig.this, elty)
            a = fn.sig.args[0].v
            v = (ld(a), ld(a + 8) if t.cplx else ZERO)
            check_tensor_result(ctx, fn, "fill", lambda c, F: dict(dims=t, size=t.size, pieces=[SPiece([t.size], lambda i: v)]), elty, obj=t.addr, tens=[t])
            continue
        one = (ZERO if name == "zeros" else ONE, ZERO)
        if "Indices" in fn.dem:
            d = fn.sig.args[0].v
            tot = P.a("total", ("vec", P.a("buf", d)))
            sq = Ten(d - 8, "double")      # extents vector of a virtual tensor
            check_tensor_result(ctx, fn, "fill", lambda c, F: dict(dims=sq, size=tot, pieces=[SPiece([tot], lambda i: one)]), elty, tens=[])
            continue
        dims = [a.v for a in fn.sig.args]
        if len(dims) == 1:
            dims = dims * 2
        size = ONE
        for x in dims:
            size = size * x

        def specf(c, F, dims=dims, size=size, one=one, name=name):
            F = nonneg(F, dims)
            if F is None:
                return None
            if name != "eye":
                return dict(dims=dims, size=size, pieces=[SPiece([size], lambda i: one)], facts=F.add(cge(size)))
            r, k = dims
            m = r
            if r != k:
                if F.ge0(k - r):
                    m = r
                elif F.ge0(r - k):
                    m = k
                else:
                    m = mkext("smin", (r, k))
                    F = F.add(cge(m)).add(cge(r - m)).add(cge(k - m))
            return dict(dims=dims, size=size, facts=F.add(cge(size)),
                        pieces=[SPiece([size], lambda i: (ZERO, ZERO)), SPiece([m], lambda i: one, strides=[r + 1])])
        check_tensor_result(ctx, fn, "fill", specf, elty, tens=[])
    if n < 28:
        raise AnalysisError("only %d filling functions found" % n)


def lists(ctx):
    for fn in ctx.get(r"^tensor::operator<<\(tensor::Indices const&, tensor::Indices const&\)"):
        a, b = [Ten(x.v, "long") for x in fn.sig.args]

        def specf(c, F, a=a, b=b):
            F = F.add(cge(a.size)).add(cge(b.size))
            return dict(dims=None, size=a.size + b.size, facts=F,
                        pieces=[SPiece([a.size], lambda i: (a.el(i), ZERO)), SPiece([b.size], lambda i: (b.el(i), ZERO), start=a.size)])
        check_tensor_result(ctx, fn, "index list", specf, "long", tens=[a, b])
    for fn in ctx.get(r"^tensor::index_to_tensor\("):
        a = Ten(fn.sig.args[0].v, "long")
        check_tensor_result(ctx, fn, "index list", lambda c, F: dict(dims=[a.size], size=a.size, pieces=[SPiece([a.size], lambda i: (a.el(i), ZERO))]),
                            "double", tens=[a])
