"""Elementwise arithmetic on tensors."""
from framework import *

OPS = {"+": cadd, "-": csub, "*": cmul, "/": cdiv}
PROBE = os.path.join(VERIF, "probe", "ops.cc")


def operand(a):
    """-> ('t', Ten) | ('s', (re, im), cplx) | None"""
    t = tensor_arg(a)
    if t:
        return ("t", t)
    ty = a.ty.replace(" const&", "").strip()
    ref = a.ty.endswith("&")
    if ty == "double":
        return ("s", (ld(a.v) if ref else a.v, ZERO), False)
    if ty == "std::complex<double>":
        return ("s", (ld(a.v), ld(a.v + 8)) if ref else tuple(a.vals), True)
    return None


def run(ctx):
    ctx.rule("elementwise", "the result has the extents of the tensor operand(s) and element i equals a[i] op b[i] (scalar operands broadcast)")
    ctx.rule("shape guard", "operands with different element counts never reach a normal return")
    ctx.rule("inventory", "every operator overload of the public headers has a body that is analysed")
    fns = ctx.get(r"^(tensor::Tensor<.*> )?tensor::operator([-+*/]=?)(<.*>)?\(") + ctx.get(r"^(tensor::Tensor<.*>& ?|tensor::Tensor<.*> )?tensor::operator([-+*/]=?)<?|^probe_(add|sub|mul|div)_", srcs=[PROBE])
    seen = set()
    for fn in fns:
        m = re.search(r"tensor::operator([-+*/])(=?)", fn.dem)
        if m:
            op, asg = m.group(1), bool(m.group(2))
        else:
            m = re.match(r"probe_(\w+?)_", fn.dem)
            op, asg = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[m.group(1)], True
        if "Sparse" in fn.dem or "Indices" in fn.dem or not fn.sig.ok:
            continue
        ops = [operand(a) for a in fn.sig.args]
        if not ops or None in ops or not any(o[0] == "t" for o in ops):
            continue
        key = (op, asg, tuple(("T%d" % o[1].es) if o[0] == "t" else "S%d" % o[2] for o in ops), fn.src)
        seen.add(key[:3])
        elementwise(ctx, fn, op, asg, ops)
    want = set()
    for op in "+-*/":
        for a, b in (("T8", "T8"), ("T16", "T16"), ("T8", "T16"), ("T16", "T8"), ("T8", "S0"), ("S0", "T8"), ("T16", "S1"), ("S1", "T16"),
                     ("T8", "S1"), ("T16", "S0"), ("S1", "T8"), ("S0", "T16")):
            want.add((op, False, (a, b)))
        for a, b in (("T8", "T8"), ("T16", "T16"), ("T16", "T8"), ("T8", "S0"), ("T16", "S1"), ("T16", "S0")):
            want.add((op, True, (a, b)))
    want |= {("-", False, ("T8",)), ("-", False, ("T16",))}
    miss = want - seen
    if miss:
        raise AnalysisError("operator overloads not found: %s" % sorted(miss)[:5])


def elementwise(ctx, fn, op, asg, ops):
    tens = [o[1] for o in ops if o[0] == "t"]
    main = tens[0]
    cplx = any(o[1].cplx if o[0] == "t" else o[2] for o in ops)
    elty = "std::complex<double>" if cplx else "double"

    def specf(c, F):
        def val(i):
            vs = [o[1].val(i) if o[0] == "t" else o[1] for o in ops]
            if len(vs) == 1:
                return cneg(vs[0])
            return OPS[op](vs[0], vs[1])
        return dict(dims=main, size=main.size, pieces=[SPiece([main.size], val)])
    if asg:
        check_tensor_result(ctx, fn, "elementwise", specf, elty, obj=main.addr, tens=tens)
    else:
        check_tensor_result(ctx, fn, "elementwise", specf, elty, tens=tens)
    if len(tens) == 2:
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, "shape guard", err)
            return
        bad = None
        for c in cases:
            if c.outcome == "ret" and not eqdims(c.facts, *tens):
                if not facts_with_dims(c.facts, tens).eq0(tens[0].size - tens[1].size):
                    bad = c
        if bad is not None:
            ctx.bad(fn, "shape guard", "returns normally with operands of %s and %s elements" % (show(tens[0].size), show(tens[1].size)), bad.loc)
        else:
            ctx.ok(fn, "shape guard")
