"""Files of records: failures are noticed, the old file stays until the new one is complete, and one process at a time writes."""
from streams import *

GOODBIT = {"fail() const": ("nbool", "eq"), "operator!() const": ("nbool", "eq"), "good() const": ("bool", "ne"), "operator bool() const": ("bool", "ne"), "bad() const": ("nbool", "eq")}
CLEAN, UNTESTED, DIRTY = 0, 1, 2
SHARED, OVERWRITE, PARANOID = 1, 0, 4


def run(ctx):
    ctx.rule("writes", "when an output operation returns, everything it wrote was flushed to the system and the stream was tested afterwards; a path on which the test failed does not return")
    ctx.rule("reads", "no input operation returns before the stream was tested after its last read")
    ctx.rule("close", "an output file is flushed and closed, and the result tested, before it is put in place or its lock is released; the destructor closes")
    ctx.rule("replace", "a file written in the careful mode has another name until it is closed, and is then moved into place, with the result tested; nothing deletes the old file before; in overwrite mode the old file is deleted first; in shared mode it is kept")
    ctx.rule("lock", "in shared mode the lock is held on the file that bears the lock's name before the stream is opened; it is given up after closing, by deleting the name before releasing the lock")
    ctx.rule("report", "a file operation returns true exactly when the system call succeeded")
    for fn in ctx.get(r"^sdf::OutDataFile::(OutDataFile|dump|write_\w+)\("):
        streams(ctx, fn, "writes")
    for fn in ctx.get(r"^sdf::InDataFile::(InDataFile|load|read_\w+)\("):
        streams(ctx, fn, "reads")
    closing(ctx)
    opening(ctx)
    moving(ctx)
    report(ctx)


def paths(ctx, fn):
    w, cases, err = ctx.summary(fn, None)
    if cases is None:
        return None, None, err
    return w, [c for c in cases if c.outcome == "ret" and not infeasible(c.facts)], None


# ---------------------------------------------------------------- stream state along a path

def evts_in(c):
    out = []
    for x in c[1:]:
        if isinstance(x, P):
            out += [atom(i) for i in all_atoms(x) if atom(i)[0] == "evt"]
        elif isinstance(x, tuple):
            out += evts_in(("",) + x) if x and x[0] != "evt" else []
    return out


def tests(conds):
    """event of a stream test -> True when it found the stream good, None when the form is not understood"""
    out = {}
    for c in conds:
        for a in evts_in(c):
            nm = strip(a[1])
            if "istream" in nm and nm.endswith("::gcount() const"):
                out[a] = (None, "gcount")
                continue
            m = re.search(r"basic_ios<.*>::(\w+.*\) const)$", nm) or re.search(r"basic_[io]f?stream<.*>::(is_open\(\) const)$", nm)
            if not m:
                continue
            k = m.group(1)
            direct = isinstance(c[1], P) and c[1].single() and c[1].single()[0] == "res"
            if k in GOODBIT and direct and c[0] in ("bool", "nbool", "eq", "ne"):
                out[a] = (c[0] in GOODBIT[k], k)
            elif k not in ("is_open() const", "eof() const"):
                out[a] = (None, k)
    return out


def evt_of(e):
    h = e[5]
    s = h.single() if isinstance(h, P) else h
    return s


class State:
    """worst state of the stream over the paths through a list of effects"""

    def __init__(self, kind):
        self.kind = kind
        self.loc, self.unk = None, None

    def run(self, eff, conds, st):
        T = tests(conds)
        for e in eff:
            if e[0] == "for":
                top = st
                for _ in range(2):
                    for bc, be in e[3]:
                        top = max(top, self.run(be, list(bc), top))
                # after no iteration or any number of them; the last one decides
                if any(x[0] == "call" and self.touch(x) for _, be in e[3] for x in be):
                    st = max([st] + [self.run(be, list(bc), top) for bc, be in e[3]])
                continue
            if e[0] != "call":
                continue
            if not isinstance(e[1], str):
                self.unk = "an indirect call"
                continue
            s = strip(e[1])
            if self.kind == "writes":
                if re.match(r"std::ostream::(write|put)\(|std::basic_ostream<char.*>::(write|put)\(", s):
                    st, self.loc = DIRTY, e[3]
                elif re.match(r"std::ostream::flush\(|std::basic_ostream<char.*>::flush\(|std::basic_ofstream<.*>::close\(", s):
                    if st == DIRTY:
                        st = UNTESTED
                elif re.search(r"basic_ios<.*>::(clear|exceptions|setstate)\(|::rdbuf\(|basic_streambuf|basic_filebuf", s):
                    self.unk = s[-60:]
            else:
                if re.match(r"std::istream::read\(|std::basic_istream<char.*>::read\(", s):
                    st, self.loc = UNTESTED, e[3]
                elif re.match(r"std::istream::(get|getline|ignore|readsome)\(", s) or re.search(r"basic_ios<.*>::(clear|exceptions|setstate)\(|::rdbuf\(|basic_streambuf|basic_filebuf", s):
                    self.unk = s[-60:]
            ev = evt_of(e)
            if ev in T:
                good, k = T[ev]
                if good is None:
                    self.unk = k
                elif good and (self.kind == "writes" or k != "bad() const") and st == UNTESTED:
                    st = CLEAN
        return st

    def touch(self, e):
        return isinstance(e[1], str) and re.match(r"std::(ostream|istream|basic_[io]f?stream<.*>)::\w+\(", strip(e[1]))


def streams(ctx, fn, kind):
    w, cs, err = paths(ctx, fn)
    if cs is None:
        return ctx.unk(fn, kind, err)
    if not any(uses(c.eff, kind) for c in cs):
        return
    worst = (CLEAN, None, None)
    unk = None
    for c in cs:
        s = State(kind)
        r = s.run(c.eff, c.facts.conds, CLEAN)
        unk = unk or s.unk
        if r > worst[0]:
            worst = (r, s.loc, c)
    if unk:
        return ctx.unk(fn, kind, "%s is not modelled" % unk)
    if worst[0] == CLEAN:
        return ctx.ok(fn, kind, "%d paths" % len(cs))
    if kind == "reads":
        d = "returns without a test of whether the read took all the bytes"
    else:
        d = "returns with bytes that were not flushed to the file" if worst[0] == DIRTY else "returns without a test, after the flush, of whether the bytes were written"
    ctx.verdict(fn, kind, REFUTED, d, worst[1])


def uses(eff, kind):
    for e in eff:
        if e[0] == "for" and any(uses(be, kind) for _, be in e[3]):
            return True
        if e[0] == "call" and isinstance(e[1], str) and re.match(r"std::ostream::write\(" if kind == "writes" else r"std::istream::read\(", strip(e[1])):
            return True
    return False


# ---------------------------------------------------------------- closing

def flat(eff):
    for e in eff:
        if e[0] == "for":
            for _, be in e[3]:
                for x in flat(be):
                    yield x
        else:
            yield e


def calls_of(eff):
    return [(n, strip(e[1]) if isinstance(e[1], str) else "?", e) for n, e in enumerate(eff) if e[0] == "call"]


def closing(ctx):
    for fn in ctx.get(r"^sdf::OutDataFile::(close|~OutDataFile)\("):
        w, cs, err = paths(ctx, fn)
        if cs is None:
            ctx.unk(fn, "close", err)
            continue
        dtor = "~" in fn.dem
        v = (PROVED, "%d paths" % len(cs), None)
        for c in cs:
            T = tests(c.facts.conds)
            closed = tested = placed = None
            und = None
            for n, s, e in calls_of(c.eff):
                if s == "?":
                    und = "an indirect call"
                elif re.match(r"std::basic_ofstream<.*>::close\(", s):
                    closed = n
                elif evt_of(e) in T:
                    good, k = T[evt_of(e)]
                    if good is None:
                        und = k
                    elif good and closed is not None and k != "bad() const":
                        tested = n
                elif s == "OutDataFile::close()" and dtor:
                    closed = tested = placed = n
                elif s == "DataFile::close()" or s.startswith("rename_file(") or s in ("unlink", "rename"):
                    if placed is None:
                        placed = n
                        if closed is None:
                            v = (REFUTED, "the file is put in place or its lock released before the stream is closed", e[3])
                        elif tested is None:
                            v = (REFUTED, "the file is put in place or its lock released although closing the stream may have failed", e[3])
            if v[0] == REFUTED:
                break
            if und:
                v = (UNK, "%s is not modelled" % und, c.loc)
                continue
            shut = any(x[0] in ("nbool", "eq") and "ofstream" not in show(x[1]) and "evt(" not in show(x[1]) for x in c.facts.conds)
            if closed is None and placed is None and not shut:
                v = (REFUTED, "an open file is not closed", c.loc)
            elif closed is not None and tested is None:
                v = (REFUTED, "whether closing the stream succeeded is not tested", c.eff[closed][3])
            elif closed is not None and placed is None and not dtor:
                v = (REFUTED, "the file is neither put in place nor its lock released", c.loc)
        ctx.verdict(fn, "close", *v)


# ---------------------------------------------------------------- modes

class Names:
    """values of string objects along a path"""

    def __init__(self, w, lits):
        self.v = {}
        self.lits = lits

    def get(self, p):
        return self.v.get(p)

    def step(self, s, a):
        if s.startswith("string::basic_string(string const&)") or s.startswith("string::basic_string(string&&)"):
            self.v[a[0]] = self.v.get(a[1])
        elif re.match(r"string::operator=\(string", s):
            self.v[a[0]] = self.v.get(a[1])
        elif "std::operator+<" in s and len(a) == 3:
            t = self.lits(a[2])
            x = self.v.get(a[1])
            self.v[a[0]] = ("cat", x, t) if t is not None and x is not None else None
        elif re.match(r"string::(operator\+=|append)\(char const\*\)", s):
            t = self.lits(a[1])
            x = self.v.get(a[0])
            self.v[a[0]] = ("cat", x, t) if t is not None and x is not None else None
        elif s.startswith("string::basic_string<") and "(char const*" in s:
            t = self.lits(a[1])
            self.v[a[0]] = ("lit", t) if t is not None else None
        elif s.startswith("string::basic_string()"):
            self.v[a[0]] = ("lit", "")
        elif re.match(r"string::(operator=|assign|operator\+=|append|insert|replace|erase|clear|resize|swap|push_back)\(", s):
            self.v[a[0]] = None
        elif s.startswith("string::~basic_string("):
            self.v.pop(a[0], None)


def literal(w, g):
    a = g.single() if isinstance(g, P) else None
    return w.unit.text(a[1]) if a and a[0] == "g" else None


def cstr(x):
    """string object behind a c_str() value"""
    s = x.single() if isinstance(x, P) else None
    if s and s[0] == "callp":
        m = s[1].single() if isinstance(s[1], P) else s[1]
        if isinstance(m, tuple) and m[0] == "evt" and ("::c_str()" in m[1] or "::data()" in m[1]):
            return m[2][0]
    return None


def syscalls(c):
    return [(n, s, e) for n, s, e in calls_of(c.eff) if s in ("open", "flock", "fstat", "stat", "lstat", "unlink", "remove", "rename", "close", "link", "fcntl", "lockf", "truncate", "ftruncate") or s.startswith(("delete_file(", "rename_file(", "file_exists("))]


def possible(c, leaf):
    """does no condition of the path exclude these values?"""
    return all(tr(x, leaf) is not False for x in c.facts.conds)


def res_atom(e):
    return P.a("res", e[5]) if isinstance(e[5], P) else P.a("res", evt_of(e))


def known(c, e):
    """what the path knows of the result of a call: the conditions on it alone"""
    ev = evt_of(e)
    return [x for x in c.facts.conds if isinstance(x[1], P) and any(atom(i)[0] == "res" and (atom(i)[1] == e[5] or atom(i)[1] == ev) for i in x[1].atoms())]


def outcome(c, e, values=(0, -1)):
    """the results among the values that the path allows: a set"""
    ids = None
    out = set()
    for v in values:
        ok = True
        for x in known(c, e):
            leaf = {i: v for i in x[1].atoms() if atom(i)[0] == "res" and atom(i)[1] in (e[5], evt_of(e))}
            t = truth(("ne",) + x[1:] if x[0] == "bool" else ("eq",) + x[1:] if x[0] == "nbool" else x, leaf)
            if t is False:
                ok = False
        if ok:
            out.add(v)
    return out


def opening(ctx):
    O = ctx.get(r"^sdf::OutDataFile::OutDataFile\(") + ctx.get(r"^sdf::InDataFile::InDataFile\(")
    A = None
    for fn in O:
        w, cs, err = paths(ctx, fn)
        if cs is None:
            ctx.unk(fn, "lock", err)
            continue
        v = (PROVED, "%d paths" % len(cs), None)
        for c in cs:
            base = opened = None
            for n, s, e in calls_of(c.eff):
                if s.startswith("DataFile::DataFile("):
                    base = n
                    if e[2][1] != P.a("argp", 1) or e[2][2] != P.a("arg", 2, "i32"):
                        v = (UNK, "the name or the mode is not handed on", e[3])
                elif re.search(r"basic_[io]?fstream<.*>::(open|basic_[io]?fstream)\((char const\*|string)", s):
                    opened = n
                    obj = cstr(e[2][1]) if "char const*" in s else e[2][1]
                    if obj is None:
                        v = (UNK, "the name of the file that is opened", e[3])
                    elif A is not None and obj != A:
                        v = (UNK, "readers and writers open different names", e[3])
                    else:
                        A = obj
                    if base is None:
                        v = (REFUTED, "the stream is opened before the lock is taken", e[3])
            if v[0] == PROVED and (opened is None or base is None):
                v = (UNK, "how the file is opened", c.loc)
        ctx.verdict(fn, "lock", *v)
    for fn in ctx.get(r"^sdf::DataFile::DataFile\("):
        mode(ctx, fn, A)


def mode(ctx, fn, A):
    w, cs, err = paths(ctx, fn)
    if cs is None or A is None:
        for r in ("replace", "lock"):
            ctx.unk(fn, r, err or "the name of the file that is opened")
        return
    flags = P.a("arg", 2, "i32")
    me = P.a("argp", 0)
    rv, lv = (PROVED, "", None), (PROVED, "", None)
    done = set()
    FIELD.clear()
    fi = list(flags.atoms())[0]
    for c, f in [(c, f) for c in cs for f in (SHARED, OVERWRITE, PARANOID) if possible(c, {fi: f})]:
        done.add(f)
        N = Names(w, lambda g: literal(w, g))
        N.v[P.a("argp", 1)] = ("name",)
        sys_ = []
        for n, e in enumerate(c.eff):
            if e[0] == "call" and isinstance(e[1], str):
                s = strip(e[1])
                nm = None
                if s in ("unlink", "remove", "rename", "open", "stat", "lstat", "truncate"):
                    o = cstr(e[2][0])
                    nm = N.get(o) if o is not None else None
                elif s.startswith(("delete_file(", "rename_file(", "file_exists(")):
                    nm = N.get(e[2][0])
                sys_.append((n, s, e, nm))
                N.step(s, e[2])
            elif e[0] == "call":
                rv = (UNK, "an indirect call", c.loc)
            elif e[0] == "st" and e[1] - me != e[1]:
                off = (e[1] - me).const()
                if off is not None:
                    FIELD[int(off)] = e[3] if not (isinstance(e[3], P) and e[3].const() is not None and int(off) in FIELD) else FIELD[int(off)]
        a = N.get(A)
        if a is None:
            rv = (UNK, "the name that is opened in mode %d" % f, c.loc)
            continue
        gone = [(n, s, e, nm) for n, s, e, nm in sys_ if s in ("unlink", "remove", "truncate") or s.startswith("delete_file(") or s.startswith("rename")]
        if f == PARANOID:
            if a == ("name",):
                rv = (REFUTED, "the careful mode writes to the file itself", c.loc)
            elif not (a[0] == "cat" and a[1] == ("name",) and a[2]):
                rv = (UNK, "the temporary name", c.loc)
            for n, s, e, nm in gone:
                if nm == ("name",):
                    rv = (REFUTED, "the careful mode removes the old file before the new one is written", e[3])
        else:
            if a != ("name",):
                rv = (REFUTED if a[0] == "cat" and a[2] else UNK, "the name that is opened in mode %d" % f, c.loc)
            if f == SHARED:
                for n, s, e, nm in gone:
                    if nm == ("name",):
                        rv = (REFUTED, "opening a shared file removes it", e[3])
            if f == OVERWRITE:
                dele = [(n, s, e) for n, s, e, nm in gone if nm == ("name",) and not s.startswith("rename")]
                ex = [(s, e) for n, s, e, nm in sys_ if s.startswith("file_exists(") and nm == ("name",)]
                absent = any(outcome(c, e, (1, 0)) == {0} for s, e in ex)
                if absent:
                    pass
                elif not dele:
                    rv = (REFUTED if len(sys_) == len([1 for x in sys_ if x[1].startswith(("string", "std::", "file_exists("))]) else UNK, "the overwriting mode keeps the records of the old file", c.loc)
                elif not any(s.startswith("delete_file(") and outcome(c, e, (1, 0)) == {1} or s in ("unlink", "remove") and outcome(c, e, (0, -1)) == {0} for n, s, e in dele):
                    rv = (REFUTED, "whether the old file could be removed is not tested", dele[0][2][3])
        if f == SHARED and lv[0] != REFUTED:
            lv = locked(c, w, N, sys_, FIELD, lv)
    for f, nm in ((SHARED, "shared"), (OVERWRITE, "overwriting"), (PARANOID, "careful")):
        if f not in done and rv[0] == PROVED:
            rv = (UNK, "no path for the %s mode" % nm, None)
    ctx.verdict(fn, "replace", *rv)
    if SHARED in done or lv[0] != PROVED:
        ctx.verdict(fn, "lock", *lv)
    # which fields hold what
    flagoff = [o for o, x in FIELD.items() if x == flags]
    lockoff = [o for o, x in FIELD.items() if isinstance(x, P) and x.single() and x.single()[0] == "res" and "evt(open" in show(x)]
    openoff = [o for o, x in FIELD.items() if x == ONE]
    shut(ctx, A, me, flagoff[0] if len(flagoff) == 1 else None, lockoff[0] if len(lockoff) == 1 else None,
         openoff[0] if len(openoff) == 1 else None)


FIELD = {}


def locked(c, w, N, sys_, fields, lv):
    op = [x for x in sys_ if x[1] == "open"]
    fl = [x for x in sys_ if x[1] in ("flock",)]
    other = [x for x in sys_ if x[1] in ("fcntl", "lockf", "link", "mkdir", "symlink", "lockf64", "fcntl64")]
    if other:
        return UNK, "locking through %s" % other[0][1], c.loc
    if not op or not fl:
        ind = [x for x in sys_ if not x[1].startswith(("string", "std::", "file_exists(", "delete_file(")) and x[1] not in ("open", "flock", "umask", "fstat", "stat", "close", "sleep", "__errno_location", "unlink")]
        return (UNK if ind else REFUTED), "a shared file is opened without a lock", c.loc
    n, s, e, nm = op[-1]
    if nm is None or nm[0] != "cat" or nm[1] != ("name",) or not nm[2]:
        return (REFUTED if nm == ("name",) else UNK), "the name of the lock", e[3]
    fd = res_atom(e)
    if int(e[2][1].const() or 0) & 64 == 0:
        return UNK, "the lock file is not created", e[3]
    n2, s2, e2, _ = fl[-1]
    if e2[2][0] != fd:
        return UNK, "another descriptor is locked", e2[3]
    k = e2[2][1].const()
    if k is None:
        return UNK, "the kind of lock", e2[3]
    if not int(k) & 2:
        return REFUTED, "the lock is not an exclusive one", e2[3]
    got = outcome(c, e2)
    if got != {0}:
        # a file system without locks
        if any(x[0] == "eq" and "__errno_location" in show(x[1]) and re.match("-?95 ", show(x[1])) for x in c.facts.conds):
            return lv
        return REFUTED, "goes on although the lock was not obtained", e2[3]
    for n3, s3, e3, _ in sys_:
        if s3 == "close" and e3[2][0] == fd and n3 > n2:
            return REFUTED, "the lock is released as soon as it is taken", e3[3]
    st = [x for x in sys_ if x[1] in ("fstat", "stat", "lstat") and x[0] > n2]
    if len({x[1] for x in st} - {"lstat"} | {"x"}) < 2 or not identity(c, st):
        return REFUTED, "the lock may be held on a lock file that its last owner deleted: its name is not compared with the file after locking", e2[3]
    if not any(x == fd for x in fields.values()):
        return UNK, "where the lock is kept", c.loc
    return lv


def identity(c, st):
    """the inode numbers of the descriptor and of the name are known to agree"""
    bufs = [x[2][2][1] for x in st]
    for x in c.facts.conds:
        if x[0] == "eq" and isinstance(x[1], P):
            hit = set()
            for i in x[1].atoms():
                a = atom(i)
                if a[0] in ("ld", "ldv"):
                    for k, b in enumerate(bufs):
                        if isinstance(a[2], P) and (a[2] - b).const() == 8:
                            hit.add(k)
            if len(hit) == 2:
                return True
    return False


def field(c, addr, v, x=None):
    """the value v for every reading of a field in the conditions of a path (or in a form x)"""
    ids = deep_atoms(("",) + tuple(c.facts.conds)) if x is None else all_atoms(x)
    return {i: v for i in ids if atom(i)[0] in ("ld", "ldv") and atom(i)[2] == addr}


def shut(ctx, A, me, flagoff, lockoff, openoff):
    """what closing does in each mode"""
    for fn in ctx.get(r"^sdf::DataFile::close\("):
        w, cs, err = paths(ctx, fn)
        if cs is None or flagoff is None:
            ctx.unk(fn, "replace", err or "where the mode is kept")
            continue
        rv, lv = (PROVED, "%d paths" % len(cs), None), (PROVED, "", None)
        for c, f in [(c, f) for c in cs for f in (SHARED, OVERWRITE, PARANOID) if possible(c, field(c, me + flagoff, f))]:
            S = syscalls(c)
            if openoff is not None and not possible(c, field(c, me + openoff, 1)):
                continue
            if not S and openoff is None:
                rv = (UNK, "where it is kept whether the file is open", None)
                continue
            bad = [(n, s, e) for n, s, e in S if s in ("unlink", "remove") and cstr(e[2][0]) == A or s.startswith("delete_file(") and e[2][0] == A]
            if f == PARANOID:
                mv = [(n, s, e) for n, s, e in S if s.startswith("rename_file(") or s == "rename"]
                ex = [e for n, s, e in S if s.startswith("file_exists(") and e[2][0] == A]
                if any(outcome(c, e, (1, 0)) == {0} for e in ex) and not mv:
                    continue
                if bad:
                    rv = (REFUTED, "the new file is removed", bad[0][2][3])
                elif not mv:
                    rv = (REFUTED, "a file written in the careful mode is not moved into place", c.loc)
                else:
                    n, s, e = mv[-1]
                    src = e[2][0] if s != "rename" else cstr(e[2][0])
                    dst = e[2][1] if s != "rename" else cstr(e[2][1])
                    want = (1, 0) if s != "rename" else (0, -1)
                    if src != A or dst is None or dst == A:
                        rv = (UNK if src is None or dst is None else REFUTED, "what is moved into place", e[3])
                    elif outcome(c, e, want) != {want[0]}:
                        rv = (REFUTED, "whether the file could be moved into place is not tested", e[3])
                    elif [x for x in S if x[0] < n and (x[1] in ("unlink", "remove") or x[1].startswith("delete_file("))]:
                        rv = (REFUTED, "the old file is deleted before the new one is in place", e[3])
            elif f == SHARED:
                if bad:
                    rv = (REFUTED, "a shared file is removed when it is closed", bad[0][2][3])
                if lockoff is None:
                    lv = (UNK, "where the lock is kept", None)
                    continue
                ul = [n for n, s, e in S if s in ("unlink", "remove") or s.startswith("delete_file(")]
                cl = [(n, e) for n, s, e in S if s == "close"]
                held = any(possible(c, field(c, me + lockoff, fd)) for fd in (3, 4, 1000))
                if not held:
                    pass
                elif not cl:
                    lv = (REFUTED, "the lock is not given up", c.loc)
                elif cl[0][1][2][0] != P({(list(field(c, me + lockoff, 0, cl[0][1][2][0]))[0],): 1} if field(c, me + lockoff, 0, cl[0][1][2][0]) else {}):
                    lv = (UNK, "which descriptor is closed", cl[0][1][3])
                elif ul and ul[0] > cl[0][0]:
                    lv = (REFUTED, "the lock is released before its name is deleted, so that the lock of the next process loses its name", cl[0][1][3])
        ctx.verdict(fn, "replace", *rv)
        ctx.verdict(fn, "lock", *lv)


# ---------------------------------------------------------------- moving and reporting

def moving(ctx):
    for fn in ctx.get(r"^sdf::rename_file\("):
        w, cs, err = paths(ctx, fn)
        if cs is None:
            ctx.unk(fn, "replace", err)
            continue
        v = (PROVED, "%d paths" % len(cs), None)
        p0, p1 = P.a("argp", 0), P.a("argp", 1)
        for c in cs:
            S = syscalls(c)
            rn = [(n, s, e) for n, s, e in S if s == "rename"]
            if len(rn) != 1:
                v = (UNK, "renaming through %d calls" % len(rn), c.loc)
                continue
            n, s, e = rn[0]
            if (cstr(e[2][0]), cstr(e[2][1])) != (p0, p1):
                sure = None not in (cstr(e[2][0]), cstr(e[2][1]))
                v = (REFUTED if sure else UNK, "the names that are exchanged", e[3])
            for m, t, x in S:
                if t in ("unlink", "remove", "truncate") or t.startswith("delete_file("):
                    o = x[2][0] if t.startswith("delete") else cstr(x[2][0])
                    if o in (p0, p1) and m < n:
                        v = (REFUTED, "%s is deleted before the other takes its place: a crash in between loses it" % ("the destination" if o == p1 else "the file"), x[3])
            # refused when the destination exists and is to be kept
            leaf = {}
            for m, t, x in S:
                if t.startswith("file_exists("):
                    for i in [i for cc in c.facts.conds for i in atoms_of(cc)]:
                        if atom(i)[0] == "res" and atom(i)[1] in (x[5], evt_of(x)):
                            leaf[i] = 1
            for i in [i for cc in c.facts.conds for i in atoms_of(cc)]:
                if atom(i)[:2] == ("arg", 2):
                    leaf[i] = 0
            if all(tr(cc, leaf) for cc in c.facts.conds):
                v = (REFUTED, "a destination that is to be kept is replaced", e[3])
        ctx.verdict(fn, "replace", *v)


def atoms_of(c):
    out = []
    for x in c[1:]:
        if isinstance(x, P):
            out += list(x.atoms())
        elif isinstance(x, tuple):
            out += atoms_of(x)
    return out


def tr(c, leaf):
    """truth with boolean atoms"""
    if c[0] in ("and", "or"):
        ts = [tr(x, leaf) for x in c[1:]]
        stop = c[0] == "or"
        return stop if stop in ts else None if None in ts else not stop
    if c[0] == "not":
        t = tr(c[1], leaf)
        return None if t is None else not t
    if c[0] in ("bool", "nbool"):
        return truth(("ne" if c[0] == "bool" else "eq", c[1]), leaf)
    return truth(c, leaf)


REPORT = {"rename_file": ("rename", None), "delete_file": ("unlink", None), "file_exists": ("access", None), "make_directory": ("mkdir", None), "isdir": ("stat", None)}


def report(ctx):
    for nm, (sysc, _) in REPORT.items():
        for fn in ctx.get(r"^sdf::%s\(" % nm):
            w, cs, err = paths(ctx, fn)
            if cs is None:
                ctx.unk(fn, "report", err)
                continue
            v = (PROVED, "%d paths" % len(cs), None)
            for c in cs:
                es = [(n, s, e) for n, s, e in calls_of(c.eff) if s == sysc]
                if len(es) != 1:
                    v = (UNK, "made of other calls than %s" % sysc, c.loc)
                    continue
                e = es[0][2]
                if cstr(e[2][0]) != P.a("argp", 0):
                    v = (REFUTED if cstr(e[2][0]) is not None else UNK, "another name is used", e[3])
                    continue
                allc = list(c.facts.conds) + ([c.ret] if isinstance(c.ret, tuple) else [])
                ids = {i for cc in allc for i in deep_atoms(cc) if atom(i)[0] == "res" and atom(i)[1] in (e[5], evt_of(e))}
                if nm == "isdir":
                    md = {i for cc in allc for i in deep_atoms(cc) if atom(i)[0] in ("ld", "ldv") and (atom(i)[2] - e[2][1]).const() == 24}
                    inst = [(0, m) for m in range(0, 65536, 1)] + [(-1, m) for m in (0, 0o40755, 0o100644)]
                else:
                    md, inst = set(), [(0, 0), (-1, 0)]
                for r, m in inst:
                    leaf = {i: r for i in ids}
                    leaf.update({i: m for i in md})
                    ts = [tr(cc, leaf) for cc in c.facts.conds]
                    if False in ts:
                        continue
                    got = tr(c.ret, leaf) if isinstance(c.ret, tuple) else None if not isinstance(c.ret, P) else (None if value(c.ret, leaf) is None else value(c.ret, leaf) != 0)
                    want = r == 0 and (nm != "isdir" or m & 0o170000 == 0o40000)
                    rel = [t for cc, t in zip(c.facts.conds, ts) if t is None and (set(deep_atoms(cc)) & (ids | md))]
                    if got is None:
                        v = (UNK, "form of the result", c.loc)
                        break
                    if got != want:
                        v = (UNK if rel else REFUTED, "returns %s when %s returned %d%s" % (str(got).lower(), sysc, r, "" if nm != "isdir" else " with mode 0%o" % m), e[3])
                        break
            ctx.verdict(fn, "report", *v)


def deep_atoms(c):
    out = []
    for x in c[1:] if isinstance(c, tuple) else []:
        if isinstance(x, P):
            out += list(all_atoms(x))
        elif isinstance(x, tuple):
            out += deep_atoms(x)
    return out
