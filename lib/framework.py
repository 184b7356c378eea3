"""Obligations, verdicts, evidence, known findings."""
import os, re, sys, json, time, traceback
import build
from build import AnalysisError, VERIF, REPO
from walk import Walker, Unit, Unknown, split_params, Vec
from models import Models
import poly
from poly import *
import spec
from spec import *

_units = {}


class Fn:
    def __init__(self, src, unit, f, level):
        self.src, self.unit, self.f, self.level = src, unit, f, level
        self.dem, self.name = f["dem"], f["name"]
        self.sig = Sig(f)
        self.where = "%s:%s" % (relf(f.get("file") or src), f.get("line"))

    @property
    def short(self):
        return self.dem.replace("tensor::", "").replace("std::complex<double>", "cdouble")

    def __repr__(self):
        return self.short


def relf(p):
    p = os.path.normpath(p)
    if p.startswith(REPO + "/"):
        p = p[len(REPO) + 1:]
    return p


def fmtloc(loc):
    """innermost frame inside the project"""
    if not loc:
        return None
    for fr in loc:
        p = relf(os.path.join(REPO, fr[0]) if not os.path.isabs(fr[0]) else fr[0])
        if not p.startswith("/") or "/verif/" in p:
            return "%s:%s" % (p, fr[1])
    return "%s:%s" % (loc[-1][0], loc[-1][1])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obl = []           # (fn, rule, verdict, detail, loc, key)
        self.t0 = time.time()
        self.functions = set()
        self.cases = 0
        self.stats = {}
        self.rules = {}
        self.assume = []
        self._sum = {}
        self._fns = {}

    # ---------------- source access
    def units(self, level, srcs=None):
        if srcs is None:
            srcs = build.sources()
        m = build.extract_all(srcs, level)
        out = []
        for s in srcs:
            p = m[s]
            if p not in _units:
                _units[p] = Unit(p)
            out.append((s, _units[p]))
        return out

    def fns(self, level="vec", srcs=None):
        key = (level, tuple(srcs) if srcs else None)
        if key not in self._fns:
            seen, out = set(), []
            for s, u in self.units(level, srcs):
                for f in u.j["functions"]:
                    k = f["name"]
                    if f["linkage"] in (7, 8):      # internal: per unit
                        k = (s, k)
                    if k in seen:
                        continue
                    seen.add(k)
                    out.append(Fn(s, u, f, level))
            self._fns[key] = out
        return self._fns[key]

    def get(self, rx, level="vec", srcs=None, required=True):
        r = re.compile(rx)
        out = [f for f in self.fns(level, srcs) if r.search(f.dem)]
        if not out and required:
            raise AnalysisError("no function matches %s (level %s)" % (rx, level))
        return out

    def summary(self, fn, models=None, budget=60000, key=None, facts=(), preset=None, unroll=0):
        k = (fn.level, fn.src, fn.name, key)
        if k not in self._sum:
            w = Walker(fn.f, fn.unit, models or Models(), budget=budget, entry_facts=facts, preset=preset, unroll=unroll)
            try:
                cs = w.run()
                self._sum[k] = (w, cs, None)
            except Unknown as e:
                self._sum[k] = (w, None, str(e))
            except (RecursionError, KeyError, ValueError, AssertionError, TypeError, AttributeError, IndexError) as e:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                self._sum[k] = (w, None, "internal: %r" % (e,))
            self.functions.add(fn.dem)
            if self._sum[k][1] is not None:
                self.cases += len(self._sum[k][1])
        return self._sum[k]

    # ---------------- partitions run side by side
    def par(self, jobs, procs=8):
        """jobs: callables adding obligations; each runs in a forked worker, the obligations are merged in order"""
        if len(jobs) < 2 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j()
            return
        import multiprocessing as mp
        global _job_ctx
        _job_ctx = (self, jobs)
        with mp.get_context("fork").Pool(min(procs, len(jobs))) as pool:
            for obl, fns, cases, stats in pool.imap(_run_job, range(len(jobs)), chunksize=1):
                self.obl += obl
                self.functions |= fns
                self.cases += cases
                for k, v in stats.items():
                    self.stats[k] = self.stats.get(k, 0) + v if isinstance(v, (int, float)) else v

    # ---------------- verdicts
    def add(self, fn, rule, verdict, detail="", loc=None, key=None):
        name = fn.short if hasattr(fn, "short") else str(fn)
        where = fmtloc(loc) if isinstance(loc, list) else loc
        if where is None and hasattr(fn, "where"):
            where = fn.where
        if key is None:
            key = "%s | %s" % (name, rule)
        self.obl.append((name, rule, verdict, detail, where, key))

    def ok(self, fn, rule, detail=""):
        self.add(fn, rule, PROVED, detail)

    def bad(self, fn, rule, detail, loc=None, key=None):
        self.add(fn, rule, REFUTED, detail, loc, key)

    def unk(self, fn, rule, detail, loc=None):
        self.add(fn, rule, UNK, detail, loc)

    def verdict(self, fn, rule, v, detail="", loc=None, key=None):
        self.add(fn, rule, v, detail, loc, key)

    def rule(self, name, text):
        self.rules[name] = text


_job_ctx = None


def _run_job(k):
    ctx, jobs = _job_ctx
    ctx.obl, ctx.functions, ctx.cases, ctx.stats, ctx._sum = [], set(), 0, {}, {}
    sys.setrecursionlimit(20000)
    t = time.time()
    jobs[k]()
    if os.environ.get("VERIF_TIMES") and ctx.obl:
        sys.stderr.write("%.1f %s %s\n" % (time.time() - t, ctx.obl[0][0][:60], ctx.obl[0][1]))
    return [tuple(o) for o in ctx.obl], ctx.functions, ctx.cases, ctx.stats


def ranked(ranks, consts=None, unroll=8):
    """partition: ranks {parameter position: rank}, consts {parameter position: value}; parameters counted from 0 as written
    -> keyword arguments for ctx.summary"""
    def preset(w, st):
        args = w.fn["args"]
        sig = Sig(w.fn)
        for k, r in ranks.items():
            ad = sig.args[k].v + 8
            st.vecs[ad] = Vec(P.a("buf", ad), P.c(r), 8)
            st.facts = st.facts.add(ceq(P.a("vsize", ad) - r))
            for j in range(r):
                st.facts = st.facts.add(cge(P.a("ld", "i64", P.a("buf", ad) + 8 * j)))
            t = tensor_arg(sig.args[k])
            if t is not None:
                n = ONE
                for j in range(r):
                    n = n * t.dim(j)
                st.facts = st.facts.add(ceq(n - t.size))
        for k, v in (consts or {}).items():
            x = sig.args[k].v
            for a in args:
                i = a["id"]
                y = st.env.get(i)
                if y == x:
                    st.env[i] = P.c(v) if not (isinstance(y, tuple) and y and y[0] == "bool") else (cand([]) if v else cor([]))
    return dict(preset=preset, unroll=unroll, key=("rank", tuple(sorted(ranks.items())), tuple(sorted((consts or {}).items()))))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(prop, run, level, argv):
    tier = "thorough" if "--tier=thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" and "--tier=quick" not in argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        sys.setrecursionlimit(20000)
        run(ctx)
        if not ctx.obl:
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        rc = 2
    known = {k["key"]: k for k in load_known() if k["property"] == prop and k.get("status") == "open"}
    viol, seen_known = [], {}
    for o in ctx.obl:
        if o[2] == REFUTED:
            if o[5] in known:
                seen_known[o[5]] = o
            else:
                viol.append(o)
    n = len(ctx.obl)
    npr = sum(1 for o in ctx.obl if o[2] == PROVED)
    nun = sum(1 for o in ctx.obl if o[2] == UNK)
    byrule = {}
    for o in ctx.obl:
        r = byrule.setdefault(o[1].split(" [")[0], {"obligations": 0, "proved": 0, "not_resolved": 0, "violated": 0})
        r["obligations"] += 1
        r[{PROVED: "proved", UNK: "not_resolved", REFUTED: "violated"}[o[2]]] += 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Static analysis of the current source; nothing is executed. Each obligation is a (function, rule) pair decided on the "
                           "summary of the function computed from its SSA form. 'not_resolved' obligations were outside the abstract domain: they are "
                           "neither claimed nor reported as violations.",
            "obligations": n, "discharged": npr, "not_resolved": nun, "violated": len(viol) + len(seen_known),
            "functions_analysed": len(ctx.functions), "path_partitions": ctx.cases,
            "rules": {k: dict(byrule.get(k, {}), text=t) for k, t in ctx.rules.items()},
            "by_rule": byrule,
            "samples": [{"function": o[0], "rule": o[1], "verdict": o[2], "where": o[4], "detail": o[3][:300]} for o in pick(ctx.obl)],
            "unresolved": [{"function": o[0], "rule": o[1], "where": o[4], "why": o[3][:200]} for o in ctx.obl if o[2] == UNK][:200],
            "checker_cmd": "python3 check.py %s --tier=%s" % (prop, tier),
            "trusted_base": ["clang 18 front end", "engine/irx.cpp", "lib/poly.py", "lib/walk.py", "lib/models.py", "lib/spec.py", "checks/%s.py" % prop],
        },
        "assumptions": ctx.assume,
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(viol),
    }
    ev["coverage"].update(ctx.stats)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if rc:
        ev["coverage"]["explanation"] = "the analysis could not be completed"
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, o in seen_known.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o[0], known[k]["what"]))
    if verbose:
        for o in ctx.obl:
            if o[2] != PROVED or "-a" in argv:
                print("  %-8s %s | %s | %s | %s" % (o[2], o[0], o[1], o[4], o[3]))
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write("%s\n  function: %s\n  rule: %s\n  where: %s\n  detail: %s\n\n" % (o[5], o[0], o[1], o[4], o[3]))
        for o in viol[:40]:
            print("  at %s in %s: %s: %s" % (o[4], o[0], o[1], o[3][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if rc == 0:
        print("OK property=%s obligations=%d proved=%d not_resolved=%d functions=%d wall=%.1fs" % (prop, n, npr, nun, len(ctx.functions), time.time() - ctx.t0))
    return rc


def pick(obl):
    out = [o for o in obl if o[2] == REFUTED][:5]
    pr = [o for o in obl if o[2] == PROVED]
    step = max(1, len(pr) // 8)
    return out + pr[::step][:8]
