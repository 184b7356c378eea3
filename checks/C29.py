"""Functions as maps: closures hold their extra arguments, maps of functions apply them, solvers are given what the caller gave."""
import os, re
from spec import *
from framework import *
from walk import show

PROBE = os.path.join(VERIF, "probe_map", "map.cc")


def run(ctx):
    ctx.rule("closure", "a closure calls its function once, with the argument first and the values given after it in their order, and returns its result")
    ctx.rule("copies", "a closure holds the function and copies of the values given, not the places they came from")
    ctx.rule("map", "a map of a function applied to an argument is the function applied to it; a plain map gives its argument back")
    ctx.rule("solver", "a solver given a function works on a map of this very function, with the other arguments as given")
    n = 0
    for fn in ctx.get(r"^probe::(closure_|fmap|plain|make_|cgs_|power_|eigs_)", "core", [PROBE]):
        n += 1
        nm = re.search(r"probe::(\w+)\(", fn.dem).group(1)
        rule, f = ("closure", applied) if nm.startswith("closure") else ("copies", made) if nm.startswith("make") else ("map", applied if nm == "fmap" else plain) if nm in ("fmap", "plain") else ("solver", solver)
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, rule, err)
            continue
        try:
            f(ctx, fn, rule, cases)
        except (AttributeError, IndexError, TypeError, KeyError, ValueError) as e:
            ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:100]))
    if n < 10:
        raise AnalysisError("%d probes found" % n)


TARGET = re.compile(r"^(ext\w*)\(")


def said(v):
    return show(v)


def arguments(fn):
    """the arguments as a caller names them"""
    return [said(a.v) for a in fn.sig.args]


def calls(c):
    return [e for e in c.eff if e[0] == "call"]


def exact(s, known):
    """whether a value is one the call was given (or a constant), and not something computed"""
    return s in known or re.match(r"^-?\d+(/\d+)?$", s)


def applied(ctx, fn, rule, cases):
    want = arguments(fn)
    for c in cases:
        if c.outcome != "ret":
            return ctx.bad(fn, rule, "the program ends", c.loc, key=(rule,))
        ext = [e for e in calls(c) if TARGET.match(str(e[1]))]
        if len(ext) != 1 or len(cases) != 1:
            if len(calls(c)) == len(ext) and len(cases) == 1:
                return ctx.bad(fn, rule, "the function is called %d times" % len(ext), c.loc, key=(rule,))
            return ctx.unk(fn, rule, "calls")
        got = [said(x) for x in ext[0][2]]
        if got != want:
            if all(exact(x, want) for x in got):
                return ctx.bad(fn, rule, "%s is called with (%s) and not (%s)" % (TARGET.match(ext[0][1]).group(1), ", ".join(got), ", ".join(want)), c.loc, key=(rule,))
            return ctx.unk(fn, rule, "arguments (%s)" % ", ".join(got))
        r = said(c.ret)
        if not r.startswith("res("):
            if exact(r, want):
                return ctx.bad(fn, rule, "what is returned is not the result of the function", c.loc, key=(rule,))
            return ctx.unk(fn, rule, "result")
    ctx.ok(fn, rule)


def plain(ctx, fn, rule, cases):
    x = "[%s]" % arguments(fn)[0]
    for c in cases:
        if c.outcome != "ret" or said(c.ret) != x:
            if c.outcome != "ret" or re.match(r"^[-+*/\d .^]*$", said(c.ret).replace(x, "1")):
                return ctx.bad(fn, rule, "not the argument but %s" % (said(c.ret) if c.ret is not None else "nothing"), c.loc, key=(rule,))
            return ctx.unk(fn, rule, "result")
    ctx.ok(fn, rule)


def stores(c):
    return [(said(e[1]), said(e[3])) for e in c.eff if e[0] == "st"]


def made(ctx, fn, rule, cases):
    obj, *vals = arguments(fn)
    for c in cases:
        if c.outcome != "ret" or len(cases) != 1:
            return ctx.unk(fn, rule, "ways")
        at = {k: v for k, v in stores(c) if k == "[%s]" % obj or obj in re.findall(r"\w+", k)} or {k: v for k, v in stores(c)}
        held = list(at.values())
        away = [v for v in held if "alloca" in v]
        if away:
            return ctx.bad(fn, rule, "the closure keeps the place of a value that is gone when it is called", c.loc, key=(rule,))
        miss = [v for v in vals if v not in held]
        if miss:
            if all(exact(v, vals) or v.startswith("fnp(") for v in held):
                return ctx.bad(fn, rule, "the closure does not hold %s" % ", ".join(miss), c.loc, key=(rule,))
            return ctx.unk(fn, rule, "members")
    ctx.ok(fn, rule)


def solver(ctx, fn, rule, cases):
    want = arguments(fn)
    out = [want.pop(0)] if not re.search(r"\((probe::)?F const&", fn.dem) else []
    f = None
    for c in cases:
        if c.outcome != "ret" or len(cases) != 1:
            return ctx.unk(fn, rule, "ways")
        do = [e for e in calls(c) if re.search(r"linalg::do_\w+\(", str(e[1]))]
        if len(do) != 1:
            return ctx.unk(fn, rule, "calls")
        name = re.search(r"linalg::(do_\w+)", do[0][1]).group(1)
        expect = {"cgs": "do_cgs", "power": "do_eig_power", "eigs": "do_eigs"}[re.search(r"probe::([a-z]+)_", fn.dem).group(1)]
        args = [said(x) for x in do[0][2]]
        sret = fn.f["args"][0].get("sret") if isinstance(fn.f["args"][0], dict) else None
        # result, map, rest
        given = arguments(fn)
        k = next((i for i, x in enumerate(args) if re.match(r"^(heap|alloca)\(", x)), None)
        if k is None or k > 1:
            return ctx.unk(fn, rule, "map")
        rest = args[k + 1:]
        mine = given[-len(rest):] if rest else []
        if name != expect:
            return ctx.bad(fn, rule, "%s is called and not %s" % (name, expect), c.loc, key=(rule,))
        if len(given) - len(rest) not in (1, 2) or len(mine) != len(rest):
            return ctx.unk(fn, rule, "arguments")
        if rest != mine:
            one = lambda x: set(re.findall(r"\b[ap]\d+\b", x))
            if all(exact(x, given) or re.match(r"^(trunc|sext|zext|sx|zx)\w*\(", x) for x in rest) and any(one(x) != one(y) for x, y in zip(rest, mine)):
                return ctx.bad(fn, rule, "%s is called with (%s) and not (%s)" % (name, ", ".join(rest), ", ".join(mine)), c.loc, key=(rule,))
            return ctx.unk(fn, rule, "arguments")
        f = given[len(given) - len(rest) - 1]
        inside = {p: v for p, v in stores(c) if args[k] in p}
        tables = [v for v in inside.values() if "_ZTV" in v]
        if not any("FunctionMap" in v for v in tables):
            return ctx.unk(fn, rule, "kind of map")
        if f not in inside.values() and len(inside) != 1:
            return ctx.unk(fn, rule, "function of the map")
    ctx.ok(fn, rule)
