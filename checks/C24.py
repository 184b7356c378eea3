"""Jobs: the runs of a program over all combinations of its variables, and their distribution over blocks and intervals."""
import itertools, random, re, os
from framework import *
import build, matx, objs
from matx import Unknown
from mateval import NoEval, Broken, Follow
from objs import Objects, Sample, Var, It, LOG

SRC = "src/tools/jobs.cc"
SEP = " \t\n,;"
MEMBERS = ["filename_", "variables_", "number_of_jobs_", "this_job_", "first_job_", "last_job_"]


def run(ctx):
    ctx.rule("variable", "a variable holds its name and the n equally spaced values from min to max, starts at the first, and reports the one selected")
    ctx.rule("words", "a line is split into its words, at spaces, tabs, newlines, commas and semicolons in any number")
    ctx.rule("line", "name, min, max and number of steps give a variable of one value, ten values, or as many as asked for; anything else is refused")
    ctx.rule("file", "every line of a job file that is not blank defines a variable, and the number of the first malformed one is reported")
    ctx.rule("number", "the number of jobs is the product of the numbers of values")
    ctx.rule("select", "job k selects of each variable the digit of k to the base of its number of values, the first variable fastest")
    ctx.rule("walk", "going on is to the next job, and there is something to do exactly from the first to the last job asked for, among those that exist")
    ctx.rule("value", "a value asked for is that of the variable of this name; without one the default is given, or the program stopped")
    ctx.rule("options", "the command line selects all jobs, one, an interval or a block, the blocks share out all jobs, and what makes no sense is refused")
    ctx.rule("dump", "every variable is written to the file once, with its value and name")
    fns = {}
    for fn in ctx.get(r"jobs::Job::|^split_string\(|\(anonymous namespace\)::split_string\(|std::(string|__cxx11).* split_string\(", "job", [SRC, "src/tools/jobs_save.cc"]):
        fns.setdefault(matx.base_name(fn.dem).split("jobs::")[-1] + ("/%d" % len(fn.f["args"])), fn)
    ok = layout()
    jobs, found = [], 0
    for nm, f in (("Job::Variable::Variable/5", variable_new), ("Job::Variable::size/1", v_size), ("Job::Variable::value/1", v_value), ("Job::Variable::select/2", v_select),
                  ("split_string/2", words), ("Job::parse_line/2", line), ("Job::parse_file/2", file_lines), ("Job::compute_number_of_jobs/1", number), ("Job::select_job/2", select),
                  ("Job::operator++/1", step), ("Job::to_do/1", to_do), ("Job::find_variable/2", find), ("Job::get_value/2", value), ("Job::get_value_with_default/3", default), ("Job::dump_variables/2", dump)):
        if nm in fns:
            found += 1
            jobs.append(lambda fn=fns[nm], f=f: guarded(ctx, fn, f, ok))
    if "Job::Job/3" in fns:
        found += 1
        for part in range(PARTS):
            jobs.append(lambda fn=fns["Job::Job/3"], part=part: guarded(ctx, fn, lambda c, g: options(c, g, part), ok))
    ctx.par(jobs)
    if found < 8:
        raise AnalysisError("%d functions of Job found" % found)


def layout():
    """the members of Job are where this check takes them to be"""
    try:
        t = open(os.path.join(build.REPO, "include", "tensor", "jobs.h")).read()
    except OSError:
        return False
    t = re.sub(r"//.*|/\*.*?\*/", "", t, flags=re.S) if False else t
    at = [t.rfind(m) if m != "filename_" else t.find("std::string filename_") for m in MEMBERS]
    return all(x >= 0 for x in at) and at == sorted(at) and re.search(r"tensor::index\s+number_of_jobs_\s*;\s*tensor::index\s+this_job_\s*,\s*first_job_\s*,\s*last_job_\s*;", t) is not None


def guarded(ctx, fn, f, ok):
    ctx.functions.add(fn.dem)
    rule = RULE.get(f.__name__, "options")
    try:
        if not ok:
            raise NoEval("members of Job")
        f(ctx, fn)
    except (Unknown, NoEval, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AnalysisError) as e:
        ctx.unk(fn, rule, "%s: %s" % (type(e).__name__, str(e)[:120]))


RULE = dict(variable_new="variable", v_size="variable", v_value="variable", v_select="variable", words="words", line="line", file_lines="file", number="number", select="select", step="walk",
            to_do="walk", find="value", value="value", default="value", dump="dump")
FIELDS = (56, 64, 72, 80)
field = lambda o: ("init", ("arg", 0), o)
VARS = ("T0", ("arg", 0), 32)


def summary(ctx, fn, **kw):
    ps = Objects(fn.f, fn.unit, **kw).run()
    ctx.cases += len(ps)
    return ps


class Bad(Exception):
    pass


def outcome(ps, E, what):
    """(way taken, evaluator at its end); Bad when something outside of its bounds is read"""
    F = Follow(ps, E, limit=200)
    try:
        got = F.outcome()
    except Broken as e:
        raise Bad("%s: %s" % (what, e))
    if len(got) != 1:
        raise NoEval("%d ways for %s" % (len(got), what))
    p = got[0]
    d = F.doubt[id(p)]
    if d:
        if re.match(r"a (word|character) beyond|an element outside|text taken", d[0]):
            raise Bad("%s: %s" % (what, d[0]))
        raise NoEval(d[0])
    return p, F.at(p)


def final(E, p, key, what):
    t = p.mem.get(key)
    if t is None:
        raise NoEval("nothing at %s" % (key,))
    try:
        return E.ev(t)
    except Broken as e:
        raise Bad("%s: %s" % (what, e))


def cases(ctx, fn, rule, n, check, items):
    k = 0
    for x in items:
        try:
            w = check(x)
        except Bad as e:
            w = str(e)
        if w:
            return ctx.bad(fn, rule, w, key=(rule,))
        k += 1
    ctx.ok(fn, rule, "%d cases" % k)


# ---------------------------------------------------------------- variables
def variable_new(ctx, fn):
    ps = summary(ctx, fn)
    if len(ps) != 1 or ps[0].kind != "ret":
        raise NoEval("ways")
    m = ps[0].mem
    name, vals, which = (m.get((("arg", 0), o)) for o in (0, 32, 48))
    if not (isinstance(vals, tuple) and vals[0] == "linspace" and len(vals) == 4):
        raise NoEval("values")
    E = Sample({("T0", ("arg", 1), 0): "x", ("arg", 2): 2, ("arg", 3): 7, ("arg", 4): 5})
    if [E.ev(x) for x in vals[1:]] != [2, 7, 5]:
        return ctx.bad(fn, "variable", "the values are not the n from min to max", key=("values",))
    if which is None or E.ev(which) != 0:
        return ctx.bad(fn, "variable", "a new variable does not stand at its first value", key=("first",))
    if name is None or E.ev(name) != "x":
        return ctx.bad(fn, "variable", "a new variable does not bear its name", key=("name",))
    ctx.ok(fn, "variable")


def member(ctx, fn, f):
    ps = summary(ctx, fn)
    bad = None
    for vals in ((5,), (1, 4), (3, 8, 9, 2)):
        for k in range(len(vals)):
            E = Sample({("T0", ("arg", 0), 32): vals, field(48): k, ("arg", 1): k})
            p, E = outcome(ps, E, "a variable of %d values" % len(vals))
            if p.kind != "ret" or not f(p, E, vals, k):
                bad = "of %d values, the one at %d" % (len(vals), k)
    return bad


def v_size(ctx, fn):
    b = member(ctx, fn, lambda p, E, v, k: E.ev(p.ret) == len(v))
    ctx.bad(fn, "variable", "the number of values is wrong", key=("size",)) if b else ctx.ok(fn, "variable")


def v_value(ctx, fn):
    b = member(ctx, fn, lambda p, E, v, k: E.ev(p.ret) == v[k])
    ctx.bad(fn, "variable", "the value is not the one selected: %s" % b, key=("value",)) if b else ctx.ok(fn, "variable")


def v_select(ctx, fn):
    b = member(ctx, fn, lambda p, E, v, k: E.ev(p.mem.get((("arg", 0), 48), field(48))) == k)
    ps = summary(ctx, fn)
    if not b and not all((("arg", 0), 48) in p.mem for p in ps):
        b = "never stored"
    ctx.bad(fn, "variable", "the selection is not kept: %s" % b, key=("select",)) if b else ctx.ok(fn, "variable")


# ---------------------------------------------------------------- parsing
def split(s):
    return tuple(re.findall("[^%s]+" % SEP, s))


def number_of(s):
    m = re.match(r"\s*[-+]?\d+", s)
    return int(m.group(0)) if m else 0


def parse(s):
    d = split(s)
    f = lambda x: matx.num(float(re.match(r"[-+]?\d+(\.\d*)?([eE][-+]?\d+)?", x).group(0))) if re.match(r"[-+]?\d", x) else 0
    if len(d) < 2 or len(d) > 4:
        return Var()
    lo = f(d[1])
    if len(d) == 2:
        return Var(d[0], lo, lo, 1)
    n = 10 if len(d) == 3 else number_of(d[3])
    return Var(d[0], lo, f(d[2]), n) if n > 0 else Var()


def words(ctx, fn):
    ps = summary(ctx, fn)
    r = random.Random(3)
    texts = ["".join(t) for n in range(5) for t in itertools.product("ab ,", repeat=n)] + ["".join(r.choice("abc \t\n,;") for _ in range(r.randint(5, 12))) for _ in range(40)]
    texts += [t.replace("w", "w" * k) for k in (17, 40, 60) for t in ("w", "w,1", "a w", "a,w;b")]

    def check(s):
        p, E = outcome(ps, Sample({("T0", ("arg", 1), 0): s}), "text %r" % s)
        if p.kind != "ret":
            raise NoEval("no way to return")
        got = final(E, p, (("arg", 0), 0), "text %r" % s)
        if tuple(got) != split(s):
            return "%r is split into %s" % (s, list(got))
    cases(ctx, fn, "words", 0, check, texts)


def line(ctx, fn):
    ps = summary(ctx, fn)
    texts = ["", " ", "x", "x,2", "x,0", "x,1", "x,-3", "x,0,0", "x,1,1", "x,0,0,4", "x,-2,2,1", "x 2.5", "x,1,4", "x,4,1", "x,1,4,3", "x,1,4,1", "x,1,4,12", "x,1,4,0", "x,1,4,-2", "x,1,4,3,5", "x,1,4,3,5,6", "long;-1.5;2e1\t7", "quitelongnameofavariable,-12345.5,1234567.25,1234", "x,1,4,q", " y , 3 "]

    def check(s):
        p, E = outcome(ps, Sample({("T0", ("arg", 0), 0): s, ("T0", ("arg", 1), 0): s}, split=split), "line %r" % s)
        if p.kind != "ret":
            return "line %r ends the program" % s
        got = final(E, p, (("arg", 0), 0), "line %r" % s)
        want = parse(s)
        if not isinstance(got, Var):
            raise NoEval("variable")
        if (got.name == "") != (want.name == ""):
            return "line %r is %s" % (s, "refused" if want.name else "accepted, with %d values" % got.n)
        if want.name and got != want:
            return "line %r gives the variable %r" % (s, got)
    cases(ctx, fn, "line", 0, check, texts)


def file_lines(ctx, fn):
    ps = summary(ctx, fn, streams=(0,), lists=((1, 0),))
    kinds = ["", " \t", "a 1", "b,1,2,3", "a", "c 1 2 0"]
    files = [t for n in range(4) for t in itertools.product(kinds, repeat=n)]

    def check(f):
        p, E = outcome(ps, Sample({("T0", ("arg", 1), 0): ()}, lines=f, split=split, parse=parse), "file %r" % (f,))
        if p.kind != "ret":
            return "a file of the lines %r ends the program" % (f,)
        bad = [k + 1 for k, l in enumerate(f) if split(l) and not parse(l).name]
        got = E.ev(p.ret)
        if got != (bad[0] if bad else 0):
            return "with the lines %r, %s" % (list(f), "line %s is said to be wrong" % got if got else "nothing is said to be wrong")
        if not bad:
            l = final(E, p, (("arg", 1), 0), "file")
            if tuple(l) != tuple(parse(x) for x in f if split(x)):
                return "the lines %r define the variables %s" % (list(f), list(l))
    cases(ctx, fn, "file", 0, check, files)


# ---------------------------------------------------------------- jobs
LISTS = [(), (1,), (3,), (2, 3), (3, 2), (1, 4), (4, 1, 2), (2, 2, 3), (12, 14), (2, 17), (3, 11, 2), (2, 1, 3, 2, 2)]


def variables(ns):
    return tuple(Var("v%d" % k, 0, 1, n) for k, n in enumerate(ns))


def prod(ns):
    r = 1
    for n in ns:
        r *= n
    return r


def number(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(ns):
        p, E = outcome(ps, Sample({VARS: variables(ns)}), "%s values" % (ns,))
        if p.kind != "ret" or E.ev(p.ret) != prod(ns):
            return "variables of %s values make %s jobs" % (ns, E.ev(p.ret) if p.kind == "ret" else "no")
    cases(ctx, fn, "number", 0, check, LISTS)


def select(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(x):
        ns, k = x
        what = "job %d of variables of %s values" % (k, ns)
        p, E = outcome(ps, Sample({VARS: variables(ns), ("arg", 1): k, field(56): prod(ns), field(64): 0, field(72): 0, field(80): prod(ns) - 1}), what)
        if k < 0:
            return None if p.kind == "abort" else "job %d is accepted" % k
        if p.kind != "ret":
            return what + " is refused"
        if final(E, p, (("arg", 0), 64), what) != k:
            return what + ": another one becomes the current job"
        log = final(E, p, LOG, what)
        if any(e[0] != "select" for e in log):
            raise NoEval("effects")
        at = {}
        for _, v, d in log:
            if not 0 <= d < ns[v]:
                return "%s: value %s of variable %d of %d is selected" % (what, d, v, ns[v])
            at[v] = d
        if k < prod(ns):
            for v, n in enumerate(ns):
                if at.get(v) != k % n:
                    return "%s: value %s of variable %d is selected" % (what, at.get(v), v)
                k //= n
    cases(ctx, fn, "select", 0, check, [(ns, k) for ns in LISTS for k in range(-1, prod(ns) + 2)])


def step(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(k):
        p, E = outcome(ps, Sample({field(64): k, field(56): 6, field(72): 0, field(80): 5}), "job %d" % k)
        if p.kind != "ret":
            return "there is no job after job %d of 6" % k if k < 5 else None
        log = final(E, p, LOG, "job")
        if not log and k < 5:
            return "after job %d of 6, no other values are selected" % k
        if len(log) != 1 or log[0][0] != "select_job":
            raise NoEval("effects")
        if log[0][2] != k + 1:
            return "after job %d comes job %s" % (k, log[0][2])
    cases(ctx, fn, "walk", 0, check, range(8))


def to_do(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(x):
        k, n, a, b = x
        p, E = outcome(ps, Sample({field(64): k, field(56): n, field(72): a, field(80): b}), "job %d" % k)
        if p.kind != "ret" or bool(E.ev(p.ret)) != (0 <= k < n and a <= k <= b):
            return "job %d of %d, with %d to %d asked for, is %s" % (k, n, a, b, "not to be done" if a <= k <= b else "to be done")
    cases(ctx, fn, "walk", 0, check, [(k, n, a, b) for n in (1, 3, 4) for k in range(0, 6) for a in range(0, 5) for b in range(-1, 6)])


def find(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(x):
        names, want = x
        vs = tuple(Var(n, 0, 1, 2) for n in names)
        p, E = outcome(ps, Sample({VARS: vs, ("T0", ("arg", 1), 0): want}), "variables %s" % (names,))
        if p.kind != "ret":
            return "looking for %r among %s ends the program" % (want, names)
        t = p.ret
        if t == 0 or t == ("nullptr",):
            got = None
        elif isinstance(t, tuple) and t[0] == "ptr" and t[1][0] == "at*":
            try:
                it = E.ev(t[1][1])
                it.at()
            except Broken:
                return "looking for %r among %s gives a variable that does not exist" % (want, names)
            got = names[it.k]
        else:
            raise NoEval("result")
        if got != (want if want in names else None):
            return "looking for %r among %s gives %r" % (want, names, got)
    cases(ctx, fn, "value", 0, check, [(ns, w) for ns in ((), ("a",), ("a", "b"), ("ab", "a", "b"), ("c", "b", "a"), ("quitelongname1", "quitelongname2")) for w in ("a", "b", "ab", "", "quitelongname2")if w or True])


def found(ps):
    """the search in the summary: its term"""
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == "found":
                out.add(t)
            for x in t:
                walk(x)
    for p in ps:
        for c, w in p.conds:
            walk(c)
        walk(p.ret)
    if len(out) != 1:
        raise NoEval("search")
    return out.pop()


def lookup(ctx, fn, missing):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))
    t = found(ps)
    if t[1] != ("ptr", ("arg", 0), 0) or t[2] != ("T0", ("arg", 1), 0):
        return ctx.bad(fn, "value", "another name is looked for", key=("name",))
    v = Var("a", 0, 1, 2)
    for it in (It((v,), 0), None):
        p, E = outcome(ps, Sample({t: it, ("arg", 2): 77}), "a variable")
        if it is not None:
            if p.kind != "ret" or E.ev(p.ret) != ("value of", v):
                return ctx.bad(fn, "value", "the value of the variable found is not given", key=("found",))
        elif missing is None:
            if p.kind != "abort":
                return ctx.bad(fn, "value", "the program goes on without the variable", key=("missing",))
        elif p.kind != "ret" or E.ev(p.ret) != 77:
            return ctx.bad(fn, "value", "the default is not given", key=("missing",))
    ctx.ok(fn, "value")


def value(ctx, fn):
    lookup(ctx, fn, None)


def default(ctx, fn):
    lookup(ctx, fn, 77)


def dump(ctx, fn):
    ps = summary(ctx, fn, fields=FIELDS, lists=((0, 32),))

    def check(ns):
        vs = variables(ns)
        p, E = outcome(ps, Sample({VARS: vs}), "%d variables" % len(ns))
        if p.kind != "ret":
            return "%d variables: the program ends" % len(ns)
        log = final(E, p, LOG, "dump")
        if any(e[0] != "dump" for e in log):
            raise NoEval("effects")
        want = [("dump", ("value of", v), v) for v in vs]
        if sorted(map(str, log)) != sorted(map(str, want)):
            return "of %d variables, %d values are written, or under other names" % (len(vs), len(log))
    cases(ctx, fn, "dump", 0, check, LISTS)


# ---------------------------------------------------------------- the command line
PARTS = 7
FILES = {"good": (("c 5", "d 0 1 2"), 0), "bad": (("c 5",), 2)}


def readfile(f):
    nm = f[1] if isinstance(f, tuple) else f
    if nm not in FILES:
        raise NoEval("file")
    return tuple(parse(l) for l in FILES[nm][0]), FILES[nm][1]


def reference(argv):
    """None when it is not laid down, "abort", ("exit", n printed or None), or (variables, jobs visited)"""
    vs, i = (), 0
    first = last = this = blocks = None
    show = False
    need = ("--job", "--this-job", "--job-blocks", "--first-job", "--last-job", "--variable")
    while i < len(argv):
        w = argv[i]
        if w == "--first-job" and this is not None:
            return "abort"
        if w == "--last-job" and first is None:
            return "abort"
        if w in need:
            i += 1
            if i == len(argv):
                return "abort"
            x = argv[i]
        if w == "--job":
            l, bad = readfile(("file", x))
            vs += l
            if bad:
                return "abort"
        elif w == "--variable":
            v = parse(x)
            if not v.name:
                return "abort"
            vs += (v,)
        elif w == "--print-jobs":
            show = True
        elif w == "--this-job":
            this = number_of(x)
            if first is not None:
                return None
        elif w == "--job-blocks":
            blocks = number_of(x)
        elif w == "--first-job":
            first = number_of(x)
        elif w == "--last-job":
            last = number_of(x)
        elif w == "--help":
            return ("exit", None)
        i += 1
    n = prod([v.n for v in vs])
    if show:
        return ("exit", n)
    if blocks is not None:
        if first is not None or blocks <= 0:
            return "abort"
        if (this or 0) < 0:
            return "abort"
        d = -(-n // blocks)
        return vs, list(range(min((this or 0) * d, n), min((this or 0) * d + d, n)))
    if first is not None:
        if first < 0 or first >= n:
            return "abort"
        if last is None:
            last = n - 1
        last = min(last, n - 1)
        return "abort" if last < first else (vs, list(range(first, last + 1)))
    if this is not None:
        return "abort" if this < 0 else (vs, [this] if this < n else [])
    return vs, list(range(n))


def command_lines(tier):
    V = [("--variable", "a,0,1,3"), ("--variable", "b 0 1 2")]
    T = [("--this-job", str(k)) for k in (0, 1, 2, 4, 5, 6, 9, -1)]
    B = [("--job-blocks", str(k)) for k in (1, 2, 3, 4, 5, 6, 7, 9, 0, -1)]
    F = [("--first-job", str(k)) for k in (-1, 0, 2, 5, 6)]
    L = [("--last-job", str(k)) for k in (0, 2, 4, 5, 6, 8)]
    M = [("--print-jobs",), ("--help",), ("--variable", "q"), ("--variable", "b,1,2,0"), ("--job", "good"), ("--job", "bad"), ("other",), ("--variable", "d 2 3")]
    singles = [[x] for x in T + B + F + L + M] + [[]]
    pairs = [[x, y] for x in T for y in B] + [[x, y] for x in F for y in L] + [[y, x] for x in T[:4] for y in B[:8:2]] + \
            [[x, y] for x in M for y in (T[3], B[3], F[2])] + [[y, x] for x in M for y in (T[3], B[3], F[2])] + [[x, y] for x in B[1:3] for y in F[1:3]] + [[y, x] for x in B[1:3] for y in F[1:3]] + \
            [[T[1], F[1]], [F[1], L[1], B[1]], [B[1], F[1], L[1]], [F[2], L[4], ("--print-jobs",)]]
    out = []
    for k, s in enumerate(singles + pairs):
        s = list(s)
        out.append(sum(V + s if k % 3 else s + V, ()))
        if len(s) == 1:
            out.append(sum(s, ()))
            out.append(sum(s + V[:1], ()))
        elif k % 4 == 0:
            out.append(sum([V[0]] + s + [V[1]], ()))
    out += [sum(V, ()) + (w,) for w in ("--job", "--this-job", "--job-blocks", "--first-job", "--variable")] + [sum(V + [F[1]], ()) + ("--last-job",)]
    W = [("--variable", "a,0,1,30"), ("--variable", "b 0 1 4")]
    out += [sum(W + x, ()) for x in ([("--this-job", "117")], [("--job-blocks", "17"), ("--this-job", "12")], [("--first-job", "11"), ("--last-job", "113")], [("--job-blocks", "200"), ("--this-job", "119")])]
    return out


def options(ctx, fn, part):
    ps = summary(ctx, fn, fields=FIELDS, lists=())
    lines = [c for k, c in enumerate(command_lines(ctx.tier)) if k % PARTS == part]
    obj = ("arg", 0)

    def check(argv):
        want = reference(argv)
        if want is None:
            return None
        what = "the command line '%s'" % " ".join(x if not re.search(r"[ ,]", x) else '"%s"' % x for x in argv)
        E = Sample({("arg", 1): len(argv), ("T0", obj, 32): (), ("T0", obj, 0): ""}, argv=argv, split=split, parse=parse, files=readfile)
        p, E = outcome(ps, E, what)
        log = final(E, p, LOG, what)
        ends = [e for e in log if e[0] == "exit"]
        if p.kind == "abort" and ends:
            if want[0] != "exit" or ends[-1][1] != 0:
                return "%s ends the program%s" % (what, "" if want == "abort" else " with status %s" % ends[-1][1])
            shown = [e[1] for e in log if e[0] == "print" and not isinstance(e[1], str)]
            if want[1] is not None and shown != [want[1]]:
                return "%s prints %s, and there are %d jobs" % (what, shown, want[1])
            return None
        if p.kind == "abort":
            return None if want == "abort" else "%s is refused" % what
        if p.kind != "ret":
            raise NoEval("way")
        sel = [e for e in log if e[0] == "select_job"]
        if len(sel) != 1 or len(log) != 1:
            raise NoEval("effects")
        start = sel[0][2]
        if start < 0:
            return None if want == "abort" else "%s starts with job %d" % (what, start)
        if want == "abort" or want[0] == "exit":
            return "%s is accepted" % what
        vs, visit = want
        got = final(E, p, (obj, 32), what)
        if tuple(got) != tuple(vs):
            return "%s defines the variables %s" % (what, list(got))
        n = final(E, p, (obj, 56), what)
        if n != prod([v.n for v in vs]):
            return "%s makes %s jobs" % (what, n)
        try:
            a, b = final(E, p, (obj, 72), what), final(E, p, (obj, 80), what)
        except Bad:
            raise
        except NoEval:
            t = [p.mem.get((obj, o)) for o in (72, 80)]
            if any(x in (field(72), field(80)) or isinstance(x, tuple) and x[0] == "h" for x in t) and start < n:
                return "%s leaves the first or last job undefined" % what
            raise
        run = list(range(start, min(b, n - 1) + 1)) if a <= start else []
        if run != visit:
            return "%s runs the jobs %s instead of %s" % (what, run, visit)
    cases(ctx, fn, "options", 0, check, lines)
