"""Datasets of jobs: every job has one record of its own, which is written once."""
from framework import *
import matx, objs
from walk import show
from matx import Unknown, base_name, isnum
from mateval import NoEval, Broken, Follow
from objs import Objects, Sample, LOG
import os, build, re

SRC = "src/tools/jobs_dataset.cc"
PARANOID = "SDF_PARANOID"


def run(ctx):
    ctx.rule("name", "the record of job k of a dataset is the file k of the directory of that name")
    ctx.rule("exists", "a record exists exactly if there is that file")
    ctx.rule("open", "the directory is made if there is nothing of the name, anything else of that name stops the program, and so does a directory that cannot be made")
    ctx.rule("record", "a record that exists is never opened, and any other is opened once, at its own name, so that it appears there when it is complete")
    ctx.rule("current", "the current job is the one selected, the number of jobs the one computed")
    ctx.rule("shared", "the pointer to a record counts its copies: the file is closed once, when the last of them is gone")
    code = flags()
    shared(ctx)
    n = 0
    for fn in ctx.get(r"jobs::Job::(open_dataset|dataset_record_exists|current_job|number_of_jobs)\(|NumberToString", "job", [SRC]):
        short = base_name(fn.dem).split("::")[-1]
        f = {"open_dataset": opening, "dataset_record_exists": exists, "current_job": current, "number_of_jobs": current}.get(short, number if "NumberToString" in fn.dem else None)
        if f is None:
            continue
        n += f in (opening, exists)
        ctx.functions.add(fn.dem)
        try:
            f(ctx, fn, code)
        except (Unknown, NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AnalysisError) as e:
            ctx.unk(fn, {opening: "record", exists: "exists", number: "name"}.get(f, "current"), "%s: %s" % (type(e).__name__, str(e)[:120]))
    if not n:
        raise AnalysisError("no function of datasets found")


def flags():
    """value of SDF_PARANOID"""
    t = open(os.path.join(build.REPO, "include", "tensor", "sdf.h")).read()
    m = re.search(r"SDF_PARANOID\s*=\s*(\d+)", t)
    return int(m.group(1)) if m else None


class Files(Objects):
    """with the files of the world: what is asked of them depends on what was done before"""

    def call(self, p, i):
        if "callee" in i and self.unit.dem(i["callee"]) in ("abort", "std::terminate()", "_exit", "std::terminate"):
            self.log(p, "exit", 1)
            return "stop"
        return super().call(p, i)

    def stream_at(self, p, s):
        """the text of the stream with this part"""
        for k in p.mem:
            if k[0] == s[1] and isinstance(k[1], int):
                return k
        raise Unknown("output")

    def named(self, p, i, d, a):
        nm = base_name(d)
        short = nm.split("::")[-1]
        o = [self.val(p, x) for x in i["ops"] if not (isinstance(x, list) and x[0] == "bb")]
        dest = o.pop(0) if i.get("sret") == 0 else None

        def give(v):
            if dest is not None:
                p.mem[(dest[1], dest[2])] = v
            else:
                p.env[i["id"]] = v
        if nm in ("sdf::file_exists", "sdf::isdir"):
            give((short, self.value(p, o[0]), p.mem[LOG]))
        elif nm == "sdf::make_directory":
            self.log(p, "mkdir", self.value(p, o[0]))
            give(("made", self.value(p, o[0])))
        elif nm.endswith("Job::dataset_record_exists"):
            give(("file_exists", ("cat", ("cat", self.value(p, o[1]), ("lit", "/")), ("digits", ("job",))), p.mem[LOG]))
        elif re.search(r"basic_string<.*>::(operator\+=|push_back)\(char\)$", d):
            p.mem[(o[0][1], o[0][2])] = ("cat", self.value(p, o[0]), ("chr", o[1]))
            if i.get("ty") == "ptr":
                p.env[i["id"]] = o[0]
        elif nm.endswith("Job::current_job"):
            give(("job",))
        elif nm.endswith("Job::number_of_jobs"):
            give(("jobs",))
        elif "NumberToString" in d:
            give(("digits", o[0]))
        elif re.match(r"^(std::__cxx11::basic_string<.*> |std::__cxx11::string |std::string )?std::(__cxx11::)?to_string\(", d):
            give(("digits", o[0]))
        elif re.search(r"basic_o?stringstream<.*>::", d) and not d.startswith("std::operator"):
            if short.startswith("~"):
                return None
            if short in ("basic_ostringstream", "basic_stringstream"):
                p.mem[(o[0][1], o[0][2])] = ("lit", "")
            elif short == "str" and len(o) == 1:
                give(self.value(p, o[0]))
            else:
                raise Unknown("call of " + short)
        elif re.search(r"(basic_ostream<.*>|std::ostream)::(operator<<\(|_M_insert<)", d) and len(o) == 2 and not known(o[0]):
            k = self.stream_at(p, o[0])
            if not re.search(r"(operator<<|_M_insert<[a-z ]*>)\((int|long|unsigned int|unsigned long)\)$", d):
                raise Unknown("output")
            p.mem[k] = ("cat", p.mem[k], ("digits", o[1]))
            p.env[i["id"]] = o[0]
        elif re.search(r"std::operator<< ?<", d) and isinstance(o[0], tuple) and o[0][0] == "ptr" and o[0][1][0] != "g":
            k = self.stream_at(p, o[0])
            p.mem[k] = ("cat", p.mem[k], self.text(o[1]) if "char const*)" in d else self.value(p, o[1]) if "basic_string" in d.split("(", 1)[1] else ("chr", o[1]))
            p.env[i["id"]] = o[0]
        elif re.search(r"basic_ostream<|std::ostream|std::basic_ios<|std::ios", d) and o and not known(o[0]):
            raise Unknown("output")
        elif re.search(r"std::operator\+ ?<char", d) and len(o) == 2:
            args = d[d.index("(", d.rindex("operator+")):]
            x = [self.value(p, z) if isinstance(z, tuple) and z[0] == "ptr" and z[1][0] != "g" else self.text(z) if isinstance(z, tuple) and z[0] == "ptr" else ("chr", z) for z in o]
            give(("cat", x[0], x[1]))
        elif short == "OutDataFile" and "sdf::OutDataFile::OutDataFile(" in d:
            self.log(p, "open", self.value(p, o[1]), o[2] if len(o) > 2 else 0)
            p.mem[(o[0][1], "opened")] = p.mem[LOG]
        elif "shared_ptr<sdf::OutDataFile>" in d:
            if short.startswith("~"):
                return None
            if short == "shared_ptr" and len(o) == 2:
                v = o[1]
                if isinstance(v, tuple) and v[0] == "ptr" and (v[1], v[2]) in p.mem and "shared_ptr" in d[d.rindex("("):]:
                    v = p.mem[(v[1], v[2])]
                p.mem[(o[0][1], o[0][2])] = ("held", v if not (isinstance(v, tuple) and v[0] == "ptr") else ("new", p.mem.get((v[1], "opened"), ("nolog",))))
            elif short == "shared_ptr" and len(o) == 1:
                p.mem[(o[0][1], o[0][2])] = ("held", 0)
            elif short in ("operator=", "reset") and len(o) == 2:
                v = o[1]
                if short == "operator=":
                    v = self.value(p, v)
                else:
                    v = ("held", v if not (isinstance(v, tuple) and v[0] == "ptr") else ("new", p.mem.get((v[1], "opened"), ("nolog",))))
                p.mem[(o[0][1], o[0][2])] = v
                if i.get("ty") == "ptr":
                    p.env[i["id"]] = o[0]
            else:
                raise Unknown("call of " + short)
        else:
            return super().named(p, i, d, a)
        return None


def known(s):
    """std::cout and its like"""
    return isinstance(s, tuple) and s[0] == "ptr" and s[1][0] == "g"


class World(Sample):
    """files: name -> "dir" or "file"; can: whether a directory can be made; race: another job makes it in between"""

    def __init__(self, leaf, files, job, can, race):
        super().__init__(leaf)
        self.world, self.k, self.can, self.race = files, job, can, race

    def now(self, log):
        w = dict(self.world)
        for e in self.ev(log):
            if e[0] == "mkdir" and e[1] not in w and (self.can or self.race):
                w[e[1]] = "dir"
        return w

    def op_file_exists(self, s, log):
        return int(self.txt(s) in self.now(log))

    def op_isdir(self, s, log):
        return int(self.now(log).get(self.txt(s)) == "dir")

    def op_made(self, s):
        return int(self.can and not self.race and self.txt(s) not in self.world)

    def op_job(self):
        return self.k

    def op_jobs(self):
        return 1000

    def op_init(self, base, off):
        if base == ("arg", self.this) and off in (56, 64, 72, 80):
            return {56: 1000, 64: self.k, 72: 0, 80: 999}[off]
        raise NoEval("member")

    this = 0

    def op_digits(self, n):
        return str(self.ev(n))

    def op_chr(self, c):
        return chr(self.ev(c))

    def op_held(self, x):
        return self.ev(x)

    def op_new(self, log):
        return ("file", len([e for e in self.ev(log) if e[0] == "open"]))


def summary(ctx, fn):
    ps = Files(fn.f, fn.unit).run()
    ctx.cases += len(ps)
    return ps


def outcome(ps, E, what):
    F = Follow(ps, E, limit=200)
    got = F.outcome()
    if len(got) != 1:
        raise NoEval("%d ways for %s" % (len(got), what))
    if F.doubt[id(got[0])]:
        raise NoEval(F.doubt[id(got[0])][0])
    return got[0], F.at(got[0])


def cases(k):
    for job in (0, 3, 12, 107):
        for name in ("d", "run/a"):
            rec = "%s/%d" % (name, job)
            near = {"%s/%d" % (name, job + 1): "file", "%s/%d" % (name, job * 10 + 1): "file", "%s%d" % (name, job): "file", str(job): "file", rec + "~": "file"}
            for at in (None, "dir", "file"):
                for record in (None, "file", "dir") if at == "dir" else (None,):
                    for can, race in ((1, 0), (0, 0), (0, 1)) if at is None else ((1, 0),):
                        w = dict(near) if at == "dir" else {str(job): "file"}
                        if at:
                            w[name] = at
                        if record:
                            w[rec] = record
                        yield job, name, rec, at, record, can, race, w


def exists(ctx, fn, code):
    ps = summary(ctx, fn)
    n = 0
    for job, name, rec, at, record, can, race, w in cases(1):
        p, E = outcome(ps, World({("T0", ("arg", 1), 0): name}, w, job, can, race), name)
        if p.kind != "ret":
            return ctx.bad(fn, "exists", "asking for a record stops the program", key=("exists",))
        r = E.ev(p.ret)
        if bool(r) != (rec in w):
            return ctx.bad(fn, "exists", "job %d, dataset %s, record %s: the answer is %s" % (job, name, "there" if rec in w else "missing", bool(r)), key=("exists",))
        if any(e[0] in ("mkdir", "open") for e in E.ev(p.mem[LOG])):
            return ctx.bad(fn, "exists", "asking for a record makes files", key=("makes",))
        n += 1
    ctx.ok(fn, "exists", "%d cases" % n)


def opening(ctx, fn, code):
    ps = summary(ctx, fn)
    n, bad = 0, {}
    for job, name, rec, at, record, can, race, w in cases(1):
        W = World({("T0", ("arg", 2), 0): name}, w, job, can, race)
        W.this = 1
        p, E = outcome(ps, W, name)
        what = "job %d, dataset %s (%s)" % (job, name, {None: "missing", "dir": "a directory", "file": "a file"}[at])
        log = [e for e in E.ev(p.mem[LOG]) if e[0] in ("mkdir", "open")]
        made = [e for e in log if e[0] == "mkdir"]
        opened = [e for e in log if e[0] == "open"]
        stop = at == "file" or at is None and not can and not race
        if stop != (p.kind != "ret"):
            bad.setdefault("open", what + (": the program goes on" if stop else ": the program ends"))
            continue
        if [e[1] for e in made] != ([name] if at is None else []):
            bad.setdefault("open", what + (": directories made: %s" % ", ".join(e[1] for e in made)))
            continue
        if stop:
            if opened:
                bad.setdefault("record", what + ": a record is opened")
            continue
        if log and log[-1][0] == "mkdir" and opened:
            bad.setdefault("open", what + ": the directory is made after its record")
        r = E.ev(p.mem[(("arg", 0), 0)])
        if record:
            if opened:
                bad.setdefault("record", what + ": the record %s exists and is opened again" % rec)
            elif r != 0:
                raise NoEval("result")
        elif [e[1] for e in opened] != [rec]:
            bad.setdefault("record", what + ": opened: %s, and not %s" % (", ".join(e[1] for e in opened) or "nothing", rec))
        elif code is None:
            raise NoEval("modes")
        elif opened[0][2] != code:
            bad.setdefault("record", what + ": the record is opened in mode %s and not as SDF_PARANOID, so that it can be seen when incomplete" % opened[0][2])
        elif r != ("file", 1):
            bad.setdefault("record", what + ": the record opened is not the one given")
        n += 1
    for rule in ("open", "record"):
        ctx.bad(fn, rule, bad[rule], key=(rule,)) if rule in bad else ctx.ok(fn, rule, "%d cases" % n)


def current(ctx, fn, code):
    ps = summary(ctx, fn)
    want = ("init", ("arg", 0), 64 if "current" in fn.dem else 56)
    if len(ps) != 1 or ps[0].kind != "ret":
        raise NoEval("ways")
    if ps[0].ret == want:
        return ctx.ok(fn, "current")
    E = Sample({want: 7, **{("init", ("arg", 0), o): 100 + o for o in (56, 64, 72, 80) if ("init", ("arg", 0), o) != want}})
    r = E.ev(ps[0].ret)
    ctx.ok(fn, "current") if r == 7 else ctx.bad(fn, "current", "not the number kept for it", key=("current",))


def number(ctx, fn, code):
    ps = summary(ctx, fn)
    for k in (0, 3, 12, 107):
        w = World({("arg", 1): k}, {}, k, 1, 0)
        w.leaf[("arg", 1)] = k
        p, E = outcome(ps, w, "number")
        t = p.mem.get((("arg", 0), 0))
        if p.kind != "ret" or t is None:
            raise NoEval("text")
        if E.txt(t) != str(k):
            return ctx.bad(fn, "name", "the text of number %d is %s" % (k, E.txt(t)), key=("digits",))
    ctx.ok(fn, "name")


# ---------------------------------------------------------------- the pointer to the record
PROBE = os.path.join(VERIF, "probe_map", "shared.cc")


def shared(ctx):
    rule = "shared"
    fns = {re.search(r"share_(\w+)\(", fn.dem).group(1): fn for fn in ctx.get(r"^probe::share_", "core", [PROBE])}
    at = {}
    for nm in ("new", "copy", "end", "assign", "arrow", "star"):
        if nm not in fns:
            continue
        fn = fns[nm]
        w, cases, err = ctx.summary(fn)
        if cases is None:
            ctx.unk(fn, rule, err)
            continue
        try:
            SHARED[nm](ctx, fn, rule, cases, at)
        except (NoEval, AttributeError, IndexError, TypeError, KeyError, ValueError, SyntaxError, NameError) as e:
            ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:100]))


def stores(c):
    return [(show(e[1]), show(e[3])) for e in c.eff if e[0] == "st"]


def one(cases):
    if len(cases) != 1 or cases[0].outcome != "ret":
        raise NoEval("ways")
    return cases[0]


def part(base, o):
    return base if o == 0 else "%d + %s" % (o, base)


def start(ctx, fn, rule, cases, at):
    """where the pointer and the count are"""
    c = one(cases)
    st = dict(stores(c))
    for o in (0, 8):
        v = st.get("[%s]" % part("p0", o), st.get(part("p0", o)))
        if v == "p1":
            at["value"] = o
        elif v and v.startswith("heap("):
            at["count"], at["of"] = o, v
    if "value" not in at or "count" not in at:
        at.clear()
        raise NoEval("members")
    n = st.get("[%s]" % at["of"], st.get(at["of"]))
    if n is None:
        raise NoEval("count")
    if n != "1":
        return ctx.bad(fn, rule, "a new pointer is counted %s times" % n, cases[0].loc, key=("new",))
    ctx.ok(fn, rule)


def where(p, at):
    return "ldp(ptr,%s)" % part(p, at["count"]), "ldp(ptr,%s)" % part(p, at["value"])


def change(c, cnt):
    """what is added to the count"""
    v = [b for a, b in stores(c) if a in (cnt, "[%s]" % cnt)]
    if not v:
        return 0
    m = re.match(r"^(-?\d+) \+ \[%s\]$" % re.escape(cnt), v[-1])
    if not m or len(v) > 1:
        raise NoEval("count")
    return int(m.group(1))


def holds(c, cond, cnt, val, n):
    """whether a condition holds of an object with n pointers to it"""
    s = show(cond)
    m = re.match(r"^\((eq|ne|ge|gt|le|lt),(.*)\)$", s)
    if not m:
        raise NoEval("condition " + s[:50])
    x = m.group(2).replace("[%s]" % cnt, "(%d)" % n).replace(cnt, "2000").replace(val, "1000")
    if not re.match(r"^[-+*/() \d]*$", x):
        raise NoEval("condition " + s[:50])
    v = eval(x)
    return {"eq": v == 0, "ne": v != 0, "ge": v >= 0, "gt": v > 0, "le": v <= 0, "lt": v < 0}[m.group(1)]


def end(ctx, fn, rule, cases, at, who="p0", key="end"):
    cnt, val = where(who, at)
    for n in (1, 2, 3):
        way = [c for c in cases if all(holds(c, x, cnt, val, n) for x in c.facts.conds)]
        if len(way) != 1 or way[0].outcome != "ret":
            raise NoEval("ways")
        c = way[0]
        gone = [e for e in c.eff if e[0] == "call" and "~Object" in str(e[1])]
        freed = [show(e[1]) for e in c.eff if e[0] == "free"]
        if n > 1 and (gone or freed):
            return ctx.bad(fn, rule, "the object is deleted while %d pointers to it are left" % (n - 1), c.loc, key=(key,))
        if n > 1 and change(c, cnt) != -1:
            return ctx.bad(fn, rule, "a pointer that goes is not taken off the count", c.loc, key=(key,))
        if n == 1 and (len(gone) != 1 or show(gone[0][2][0]) != val):
            if any(e[0] == "call" and e not in gone for e in c.eff):
                raise NoEval("calls")
            return ctx.bad(fn, rule, "the last pointer deletes the object %d times" % len(gone), c.loc, key=(key,))
        if n == 1 and freed.count(cnt) > 1:
            return ctx.bad(fn, rule, "the count is deleted twice", c.loc, key=(key,))
    return True


def end_(ctx, fn, rule, cases, at):
    if end(ctx, fn, rule, cases, at):
        ctx.ok(fn, rule)


def taken(c, src, at):
    cnt, val = where(src, at)
    st = dict(stores(c))
    g = lambda o: st.get("[%s]" % part("p0", o), st.get(part("p0", o)))
    a, b = g(at["count"]), g(at["value"])
    if a is None and b is None and any(e[0] == "call" for e in c.eff):
        raise NoEval("copied elsewhere")
    return a in (cnt, "[%s]" % part(src, at["count"])) and b in (val, "[%s]" % part(src, at["value"]))


def copied(ctx, fn, rule, cases, at):
    c = one(cases)
    if not taken(c, "p1", at):
        raise NoEval("members")
    if change(c, where("p1", at)[0]) != 1:
        return ctx.bad(fn, rule, "a copy of the pointer is not counted: the object is deleted once for each", c.loc, key=("copy",))
    ctx.ok(fn, rule)


def assigned(ctx, fn, rule, cases, at):
    for c in cases:
        if c.outcome != "ret":
            raise NoEval("ways")
        if not taken(c, "p1", at):
            raise NoEval("members")
        if change(c, where("p1", at)[0]) != 1:
            return ctx.bad(fn, rule, "a pointer assigned is not counted: the object is deleted once for each", c.loc, key=("assign",))
    if end(ctx, fn, rule, cases, at):
        ctx.ok(fn, rule)


def pointed(ctx, fn, rule, cases, at):
    c = one(cases)
    r = show(c.ret)
    if r == where("p0", at)[1]:
        return ctx.ok(fn, rule)
    if r == where("p0", at)[0]:
        return ctx.bad(fn, rule, "not the object pointed to", c.loc, key=("arrow",))
    raise NoEval("result")


SHARED = dict(new=start, copy=copied, end=end_, assign=assigned, arrow=pointed, star=pointed)
