"""Element addressing."""
from framework import *
from props import *


def run(ctx):
    ctx.rule("address", "element (i1,...,in) lives at position i1 + d1*(i2 + d2*(i3 + ...)) of the data, negative indices counting from the end of their dimension")
    ctx.rule("bounds", "an index outside [-d,d) or a wrong number of indices never yields a reference")
    ctx.rule("availability", "every index in [-d,d) with the right number of indices is accepted")
    n = 0
    for fn in ctx.get(r"^tensor::Tensor<(double|std::complex<double>)>::(operator\(\)|at)\((long(, long)*)\)"):
        n += 1
        elty = "std::complex<double>" if "complex" in fn.dem.split(">::")[0] else "double"
        t = Ten(fn.sig.this, elty)
        ix = [a.v for a in fn.sig.args]
        mut = "::at(" in fn.dem
        flatat = mut and len(ix) == 1
        dims = [t.size] if flatat else [t.dim(k) for k in range(len(ix))]

        def judge(c, w, t=t, ix=ix, dims=dims):
            F = c.facts
            alts = [((), ZERO)]
            lin, stride = ZERO, ONE
            for i, d in zip(ix, dims):
                if F.ge0(i):
                    v = i
                elif F.ge0(-i - 1):
                    v = i + d
                else:
                    v = P.a("norm", i, d)
                lin = lin + v * stride
                stride = stride * d
            return scalar_eq(c, c.ret, t.buf + lin.scale(t.es), [t])
        each_return(ctx, fn, "address", judge)

        def bounds(c, w, t=t, ix=ix, dims=dims, flatat=flatat):
            worst = (PROVED, "")
            goals = []
            if not flatat:
                goals.append(ceq(t.rank - len(ix)))
            for i, d in zip(ix, dims):
                goals += [cge(d - 1 - i), cge(i + d)]
            for g in goals:
                r = implied(c.facts, g, [t])
                if r[0] == REFUTED:
                    return REFUTED, "returns a reference although %s: %s" % (show(cnot(g)), r[1])
                if r[0] == UNK:
                    worst = r
            return worst
        each_return(ctx, fn, "bounds", bounds)
        valid = [] if flatat else [ceq(t.rank - len(ix))]
        for i, d in zip(ix, dims):
            valid += [cge(d - 1 - i), cge(i + d), cge(d)]
        rejects_only(ctx, fn, "availability", valid, [t])
    for fn in ctx.get(r"^tensor::Tensor<(double|std::complex<double>)>::(operator\[\]|at_seq)\(long\)"):
        n += 1
        elty = "std::complex<double>" if "complex" in fn.dem.split(">::")[0] else "double"
        t = Ten(fn.sig.this, elty)
        i = fn.sig.args[0].v
        each_return(ctx, fn, "address", lambda c, w: scalar_eq(c, c.ret, t.buf + i.scale(t.es), [t]))
        rejects_only(ctx, fn, "availability", [cge(i), cge(t.size - 1 - i)], [t])
    if n < 28:
        raise AnalysisError("only %d accessors found" % n)
