"""Scalar obligations over path partitions: provable facts, or instances that refute them."""
from spec import *
import spec
import witness
from witness import Space, Env, Skip
from walk import Unknown, rebuild_cond


def counterexample(conds, tens, ints=None, extra=None, free=(), maxtry=6000):
    """an instance of the arguments satisfying all the conditions (only when every condition is decided) -> description or None"""
    conds = [c for c in conds if c[0] != "T"]
    if any(lost(c) for c in conds):
        return None
    try:
        for env, residual in Space(tens, conds, ints=ints, extra=extra, free=free, maxtry=maxtry, maxok=40).envs():
            if not residual:
                return env.desc or "every input"
            if all(witness.data_cond(c) for c in residual) and consistent(residual, Facts()) is True:
                return env.desc + (" and " if env.desc else "") + "data with " + show(list(residual))[:160]
    except (Skip, Unknown):
        return None
    return None


def implied(F, goal, tens=(), ints=None, extra=None):
    """goal: condition. -> (verdict, detail)"""
    if F.decide(goal) is True:
        return PROVED, ""
    d = counterexample(list(F.conds) + [cnot(goal)], list(tens), ints, extra)
    if d:
        return REFUTED, "does not hold for %s" % d
    if not lost(goal) and any(atom(i)[0] == "uninit" for i in all_atoms(goal)) and F.decide(goal) is None:
        return REFUTED, "depends on a value that is never set: %s" % show(goal)[:160]
    return UNK, "not established: %s" % show(goal)[:160]


def contradicts(F, valid, depth=3):
    """the path facts together with the validity conditions are contradictory"""
    G = F
    for v in valid:
        if G.decide(v) is False:
            return True
        G = G.add(v)
    if infeasible(G) or any(G.decide(v) is False for v in valid):
        return True
    for c in F.conds:
        if c[0] not in ("or", "and") and c[0] in ("ge", "eq", "ne") and G.decide(c) is False:
            return True
    if depth:
        for c in F.conds:
            if c[0] == "or":
                if all(contradicts_with(F, x, valid, depth - 1) for x in c[1:]):
                    return True
    return False


def contradicts_with(F, x, valid, depth):
    H = Facts()
    for v in valid:
        H = H.add(v)
    if H.decide(x) is False or F.decide(x) is False:
        return True
    return contradicts(F.add(x), valid, depth)


def rejects_only(ctx, fn, rule, valid, tens=(), ints=None, models=None, key=None, part=None):
    """every aborting path contradicts the validity condition"""
    w, cases, err = ctx.summary(fn, models, **(part or dict(key=key)))
    if cases is None:
        return ctx.unk(fn, rule, err)
    bad = unk = None
    n = 0
    for c in cases:
        if c.outcome == "ret":
            continue
        n += 1
        F = rank_facts(c.facts, [t for t in tens if t.elty != "long"])
        if infeasible(F) or contradicts(F, valid):
            continue
        d = counterexample(list(c.facts.conds) + list(valid), list(tens), ints)
        if d:
            bad = (d, c)
            break
        unk = (c,)
    if bad:
        ctx.bad(fn, rule, "aborts for the valid call %s" % bad[0], bad[1].loc)
    elif unk:
        ctx.unk(fn, rule, "abort path %s" % show(list(unk[0].facts.conds))[:200], unk[0].loc)
    else:
        ctx.ok(fn, rule, "%d aborting paths" % n)


def each_return(ctx, fn, rule, judge, models=None, key=None, part=None):
    """judge(case, w) -> (verdict, detail) for every normal return"""
    w, cases, err = ctx.summary(fn, models, **(part or dict(key=key)))
    if cases is None:
        return ctx.unk(fn, rule, err)
    out = []
    for c in cases:
        if c.outcome != "ret":
            continue
        if infeasible(c.facts):
            continue
        try:
            r = judge(c, w)
        except (Unknown, Lost, Skip) as e:
            r = (UNK, str(e))
        if r is not None:
            out.append((r[0], r[1], r[2] if len(r) > 2 and r[2] else c.loc))
    if not out:
        return ctx.bad(fn, rule, "the function never returns normally: every path aborts")
    for v in (REFUTED, UNK):
        for o in out:
            if o[0] == v:
                return ctx.verdict(fn, rule, v, o[1], o[2])
    ctx.ok(fn, rule, "%d cases" % len(out))


def scalar_eq(c, impl, want, tens, F=None, ints=None, extra=None):
    """-> (verdict, detail): is the returned expression the wanted one"""
    F = F or c.facts
    r = same(impl, want, F)
    if r is True:
        return PROVED, ""
    agree, diff = witness.scalar(c, impl, want, list(tens), ints=ints, extra=extra, conds=list(F.conds))
    if diff:
        return REFUTED, "instance: " + diff
    if r is False and not agree:
        return REFUTED, "gives %s, not %s" % (show(red(F, impl))[:200], show(red(F, want))[:200])
    return UNK, "%s vs %s (agrees on %d instances)" % (show(impl)[:100], show(want)[:100], agree)


def within_rank(ctx, fn, rule, tens, ranks, part):
    """with the ranks fixed, no feasible path reads an extent a tensor does not have, or stores outside a list whose length is a constant"""
    w, cases, err = ctx.summary(fn, None, **part)
    if cases is None:
        return ctx.unk(fn, rule, err)
    bufs = {P.a("buf", t.addr + 8): r for t, r in zip(tens, ranks)}

    def beyond(x):
        for i in all_atoms(x):
            a = atom(i)
            if a[0] == "ld" and len(a) == 3 and a[1] == "i64" and isinstance(a[2], P):
                for b, r in bufs.items():
                    o = (a[2] - b).const()
                    if o is not None and not (0 <= o < 8 * r):
                        return "extent %d of a tensor of rank %d is read" % (o // 8, r)

    def outside(eff):
        news = {}
        for e in eff:
            if e[0] == "vnew" and isinstance(e[2], P) and e[2].const() is not None and e[4] == 8:
                news[e[1]] = int(e[2].const())
            if e[0] == "st":
                for b, n in news.items():
                    o = (e[1] - b).const() if isinstance(e[1], P) else None
                    if o is not None and not (0 <= o < 8 * n):
                        return "element %d of a list of %d is set" % (o // 8, n)
    n = 0
    for c in cases:
        n += 1
        if infeasible(c.facts):
            continue
        why = outside(c.eff)
        for x in c.facts.conds:
            why = why or beyond(x)
        for e in c.eff:
            if e[0] in ("st", "vnew"):
                for y in e[1:4]:
                    if isinstance(y, P):
                        why = why or beyond(y)
        if why:
            return ctx.bad(fn, rule, why, c.loc)
    ctx.ok(fn, rule, "%d paths" % n)
