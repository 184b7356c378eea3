"""Operations leave the arguments they only read as they were."""
from framework import *
from walk import const_args
from origins import Effects
import build


def load(ctx, level="vec"):
    srcs = build.sources() + build.probes()
    return Effects({s: u for s, u in ctx.units(level, srcs)})


def run(ctx):
    ctx.rule("const parameter", "nothing is stored into an object that a function takes by reference to const, or into the object of a const member function, by the function or by what it calls")
    ctx.rule("elements", "nothing is stored through an element pointer that was obtained for reading (begin_const, operator[] const, a const object), so a block shared with other tensors is never written behind their back")
    E = load(ctx)
    calls = 0
    for n, (f, u, src) in sorted(E.fn.items()):
        F = Fn(src, u, f, "vec")
        if F.where.startswith("/") and "/verif/" not in F.where:
            continue
        ctx.functions.add(f["dem"])
        fl = const_args(f["dem"], len(f["args"]), bool(f["args"] and "sret" in f["args"][0]))
        for k, c in enumerate(fl):
            if not c or f["args"][k]["ty"] != "ptr":
                continue
            x = E.w[n].get(k)
            nm = "const parameter [%d]" % k
            if x is None:
                ctx.ok(F, nm, "no store reaches it")
            else:
                ctx.verdict(F, nm, REFUTED if x[0] else UNK, x[2], x[1].get("loc"))
        o = E.org[n]
        acc = [i for b, i in o.order if i["op"] == "call" and any(r[0] == "acc" and r[1] == "const" for r in o.regions(i["id"]))]
        if not acc:
            continue
        calls += len(acc)
        worst = None
        for i, a, d, why in E.const_writes(n):
            if worst is None or d and worst[0] == UNK:
                worst = (REFUTED if d else UNK, "the elements read through %s are %s" % (o.dem(a).replace("tensor::", ""), why), i.get("loc"))
        if worst is None:
            ctx.ok(F, "elements", "%d read-only element pointers, none written" % len(acc))
        else:
            ctx.verdict(F, "elements", *worst)
    ctx.stats["read_only_element_pointers"] = calls
    ctx.assume.append("BLAS, LAPACK and FFTW routines write only the arguments their documentation names as outputs")
