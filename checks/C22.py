"""Memory and other resources: released exactly once, by whoever holds them, and not used afterwards."""
from framework import *
import owner, build


def run(ctx):
    ctx.rule("released", "what is obtained (new, malloc, FFTW plans, files) is released on every returning path, returned, or kept by an object that releases it")
    ctx.rule("once", "nothing is released twice, used after its release, or released in another form than it was obtained")
    ctx.rule("all paths", "a function that releases what it was given does so on every returning path")
    ctx.rule("owner", "memory kept in a member is released by the destructor, and by whoever puts something else into the member")
    units = {s: u for s, u in ctx.units("vec", build.sources() + build.probes())}
    W = owner.World(units)
    sites = rel = 0
    owned = {}
    for n, r in sorted(W.results.items()):
        F = Fn(r.src, r.u, r.f, "vec")
        if F.where.startswith("/") and "/verif/" not in F.where:
            continue
        ctx.functions.add(F.dem)
        if r.overflow:
            if r.rel:
                ctx.unk(F, "released", "too many states")
            continue
        leaks = {l: x for (k, l), x in r.found.items() if k == "leak"}
        done = set()
        for k, (kind, i) in sorted(r.sites.items(), key=str):
            loc = i.get("loc")
            if str(loc) in done:
                continue
            done.add(str(loc))
            sites += 1
            nm = "released [%s %d]" % (owner.HOW[kind], len(done))
            if str(loc) in leaks:
                ctx.bad(F, nm, leaks.pop(str(loc))[1], loc)
            else:
                ctx.ok(F, nm, "on %d returning paths" % len(r.exits))
        for l, x in leaks.items():
            ctx.bad(F, "released", x[1], x[2])
        wrong = [x for (k, l), x in r.found.items() if k != "leak"]
        if wrong:
            ctx.bad(F, "once", wrong[0][1], wrong[0][2])
        elif r.frees or r.sites:
            rel += r.frees
            ctx.ok(F, "once", "%d releases followed" % r.frees)
        s = W.sum[n]
        for (p, off), (always, kind) in s.frees.items():
            if off is not None:
                continue
            bad = None
            for e in r.exits:
                t = e["status"].get(("arg", p))
                if (not t or t[0] not in ("freed", "kept")) and e["null"].get(("arg", p)) is not True and not (e["ret"] and e["ret"][:2] == ("arg", p)):
                    bad = e
            nm = "all paths [%d]" % p
            if bad:
                ctx.bad(F, nm, "releases what it was given on some paths, but not on the one that returns at %s" % owner.place(bad["loc"]), bad["loc"])
            else:
                ctx.ok(F, nm, "%d returning paths" % len(r.exits))
        # members
        c = cls(F)
        if c and not is_dtor(F):
            for e in r.exits:
                for (p, off), (kind, _) in e["out"].items():
                    if p == 0:
                        owned.setdefault((c, off), []).append((F, kind, e["loc"]))
    for (c, off), (n, kind, loc) in W.given.items():
        r = W.results.get(n)
        owned.setdefault((c, off), []).append((Fn(r.src, r.u, r.f, "vec"), kind, loc))
    dtors = {}
    for n, r in W.results.items():
        d = r.f["dem"]
        if "::~" in d and (0, None) not in W.sum[n].frees and not r.overflow:
            dtors[cls_of(d)] = (n, r)
    for (c, off), who in sorted(owned.items()):
        F = who[0][0]
        nm = "owner [%s, byte %d]" % (c.replace("tensor::", "").replace("std::complex<double>", "cdouble"), off)
        if c not in dtors:
            if any(k for k in dtors if k.startswith(c.split("<")[0] + "<")):
                continue
            ctx.bad(F, nm, "memory is kept in a member, and the class has no destructor that could release it", who[0][2])
            continue
        n, r = dtors[c]
        f = W.sum[n].frees.get((0, off))
        D = Fn(r.src, r.u, r.f, "vec")
        if f is None:
            ctx.bad(D, nm, "the destructor does not release the member, which holds memory obtained in %s" % F.short, r.exits[0]["loc"] if r.exits else None)
        elif not f[0]:
            # an object may remember in one of its fields whether it owns the memory
            flags = any(i["op"] == "load" and i.get("ty") != "ptr" for b in r.f["blocks"] for i in b["ins"])
            skip = [e for e in r.exits if e["status"].get(("init", ("arg", 0), off), ("",))[0] != "freed" and e["null"].get(("init", ("arg", 0), off)) is not True]
            if flags or not skip:
                ctx.unk(D, nm, "released under a condition")
            else:
                ctx.bad(D, nm, "the destructor does not release the member on the path that returns at %s" % owner.place(skip[0]["loc"]), skip[0]["loc"])
        elif f[1] and f[1] != who[0][1]:
            ctx.bad(D, nm, "obtained with %s, released with %s" % (owner.HOW[who[0][1]], owner.REL[f[1]]))
        else:
            ctx.ok(D, nm, "released by the destructor on every path")
    # members whose destructor releases them unconditionally are not overwritten or copied
    for n, r in sorted(W.results.items()):
        c = cls_of(r.f["dem"])
        if c not in dtors or r.overflow or "::~" in r.f["dem"] or (r.f["args"] and "sret" in r.f["args"][0]):
            continue
        F = Fn(r.src, r.u, r.f, "vec")
        mine = {off for (p, off), (al, k) in W.sum[dtors[c][0]].frees.items() if p == 0 and off is not None and al}
        ctor = re.search(r"(^|::)(\w+)(<.*>)?::\2\(", r.f["dem"]) is not None
        for e in r.exits:
            for k, t in e["status"].items():
                if k[0] == "over" and k[1] == 0 and k[2] in mine and not ctor:
                    old = ("init", ("arg", 0), k[2])
                    if old in r.loaded:
                        continue
                    ctx.bad(F, "owner", "another value is stored in a member that holds memory, which nobody releases any more", t[1])
            for (root, off), v in e["mem"].items():
                if root == ("arg", 0) and off in mine and v[0][0] == "init" and v[0][1][0] == "arg" and v[0][1][1] != 0 and v[0][2] == off:
                    if e["mem"].get((v[0][1], off)) != owner.NULL:
                        ctx.bad(F, "owner", "two objects are left with the same memory, which both will release", e["loc"])
    ctx.stats["allocation_sites"] = sites
    ctx.stats["releases"] = rel
    ctx.assume.append("numerical libraries and C functions do not keep or release the pointers they are given; paths that end in abort() and allocation failure are outside")


def cls_of(d):
    """class of a member function"""
    p = d.split("(")[0] if "operator()" not in d else d.split("operator()")[0] + "op"
    depth = 0
    for k in range(len(p) - 1, 0, -1):
        if p[k] == ">":
            depth += 1
        elif p[k] == "<":
            depth -= 1
        elif p[k] == ":" and p[k - 1] == ":" and depth == 0:
            return p[:k - 1]
    return None


def cls(F):
    a = F.f["args"]
    if not a or "sret" in a[0]:
        return None
    c = cls_of(F.dem)
    return c if c and c not in ("tensor", "linalg", "sdf", "jobs") else None


def is_dtor(F):
    return "::~" in F.dem
