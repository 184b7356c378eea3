"""Declarations of the public headers, from clang's AST."""
import json, os, subprocess
import build
from build import AnalysisError

HEADERS = None


def public_headers():
    import re
    t = open(os.path.join(build.REPO, "include", "Makefile.am")).read()
    hs = re.findall(r"tensor/[\w/]+\.h\b", t)
    return sorted(set(h for h in hs if "/detail/" not in h))


def dump(filter_="tensor", headers=None):
    hs = headers or [h for h in public_headers() if h not in ("tensor/tensor_blas.h", "tensor/tensor_lapack.h", "tensor/config.h", "tensor/refcount.h", "tensor/vector.h")]
    src = "".join("#include <%s>\n" % h for h in hs)
    fl = [f for f in build.flags() if f not in ("-g1", "-O1")]
    r = subprocess.run([build.LLVM + "/clang++"] + fl + ["-x", "c++", "-", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filter_],
                       input=src, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("the public headers do not compile: " + r.stderr[-600:])
    out, dec, t, i = [], json.JSONDecoder(), r.stdout, 0
    while i < len(t):
        while i < len(t) and t[i].isspace():
            i += 1
        if i >= len(t):
            break
        o, i = dec.raw_decode(t, i)
        out.append(o)
    return out, hs


class Decl:
    __slots__ = ("mangled", "name", "type", "file", "line", "kind", "hasBody", "cls", "deleted", "virtual", "pure", "tmpl", "node", "access", "inst")


def functions(objs):
    """every function declaration (with a mangled name) below the given nodes"""
    out = []
    cur = {"file": None, "line": None}

    def loc(n):
        l = n.get("loc") or {}
        if "expansionLoc" in l:
            l = l["expansionLoc"]
        if l.get("file"):
            cur["file"] = l["file"]
        if l.get("line"):
            cur["line"] = l["line"]

    def walk(n, cls, tmpl, access, inst):
        if not isinstance(n, dict) or "kind" not in n:
            return
        loc(n)
        k = n["kind"]
        f, ln = cur["file"], cur["line"]
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            d = Decl()
            d.mangled, d.name, d.type = n.get("mangledName"), n.get("name"), n.get("type", {}).get("qualType")
            d.file, d.line, d.kind, d.cls = f, ln, k, cls
            d.hasBody = any(isinstance(c, dict) and c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []))
            d.deleted = bool(n.get("explicitlyDeleted")) or bool(n.get("explicitlyDefaulted")) or bool(n.get("isImplicit"))
            d.virtual, d.pure = bool(n.get("virtual")), bool(n.get("pure"))
            d.tmpl, d.node, d.access, d.inst = tmpl, n, access, inst
            out.append(d)
            for c in n.get("inner", []):
                visit(c)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                loc(c) if isinstance(c, dict) else None
                if isinstance(c, dict) and c.get("kind") == "CXXRecordDecl":
                    walk(c, cls, True, None, inst)
                elif isinstance(c, dict) and c.get("kind") == "ClassTemplateSpecializationDecl":
                    walk(c, cls, False, None, True)
                else:
                    visit(c)
            return
        if k == "FunctionTemplateDecl":
            seen = False
            for c in n.get("inner", []):
                if isinstance(c, dict) and c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    walk(c, cls, not seen or tmpl, access, seen)
                    seen = True
                else:
                    visit(c)
            return
        ncls = cls
        acc = access
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            ncls = n.get("name")
            acc = "private" if n.get("tagUsed") == "class" else "public"
            if k == "ClassTemplatePartialSpecializationDecl":
                tmpl = True
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind") == "AccessSpecDecl":
                acc = c.get("access")
                loc(c)
                continue
            walk(c, ncls, tmpl, acc, inst)

    def visit(n):
        if isinstance(n, dict):
            loc(n)
            for e in ("begin", "end"):
                pass
            for c in n.get("inner", []):
                visit(c)
    for o in objs:
        walk(o, None, False, None, False)
    return out
