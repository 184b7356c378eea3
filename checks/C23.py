"""Every function a public header offers has a definition."""
import subprocess
from framework import *
import hdr
from concurrent.futures import ThreadPoolExecutor


def defined_symbols(srcs):
    def one(s):
        bc, k = build.compile_tu(s)
        r = subprocess.run([build.LLVM + "/llvm-nm", "--defined-only", "--format=just-symbols", bc], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("llvm-nm failed on %s: %s" % (s, r.stderr[-200:]))
        return set(r.stdout.split())
    out = set()
    with ThreadPoolExecutor(8) as ex:
        for s in ex.map(one, srcs):
            out |= s
    return out


def run(ctx):
    ctx.rule("defined", "a function declared in an installed header and callable by user code has a body in a header or in a source file of the library")
    objs, headers = hdr.dump()
    fs = hdr.functions(objs)
    for ns in ("linalg", "sdf", "jobs"):
        fs += hdr.functions(hdr.dump(ns)[0])
    defd = defined_symbols(build.sources())
    ctx.stats["headers"] = headers
    ctx.stats["defined_symbols"] = len(defd)
    seen = {}
    for f in fs:
        if f.tmpl or f.deleted or f.pure or not f.mangled:
            continue
        if f.inst and (f.cls not in ("Tensor", "Sparse") or re.search(r"(IdEC1I|complexIdEEC1IS2_)", f.mangled)):
            continue        # implicit instantiations have their body where they are used; same-type and narrowing copies are not offered
        e = seen.setdefault(f.mangled, [f, False])
        e[1] |= f.hasBody
        if f.access not in ("private",):
            e[0] = f
    for m, (f, body) in sorted(seen.items()):
        if f.access == "private":
            continue        # deliberately left without a body to forbid copies
        file = f.file or ""
        if file and not file.startswith(REPO):
            continue
        name = "%s%s %s" % (f.cls + "::" if f.cls else "", f.name, f.type)
        ctx.functions.add(name)
        loc = "%s:%s" % (relf(file), f.line)
        if body or m in defd:
            ctx.ok(name, "defined")
        else:
            ctx.bad(name, "defined", "declared in %s but no body exists in the headers or the library sources" % loc, loc)
