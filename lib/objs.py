"""Summaries of functions over strings, lists, iterators and streams (level `job`): the machine of matx with these as values,
everything that is done to the outside world kept in order in a log, and their meaning over small samples."""
from matx import *
import matx
from mateval import Eval, NoEval, Broken, Follow, Poison

LOG = (("log",), 0)


class Objects(Machine):
    """fields: offsets of the numbers in the object behind the first argument, which are values of their own"""

    def __init__(self, fn, unit, fields=(), lists=(), streams=(), preset=None):
        super().__init__(fn, unit, preset)
        self.fields, self.lists, self.streams = fields, lists, streams
        self.strings = {g[0]: g[4][1] for g in unit.j.get("globals", []) if len(g) > 4 and isinstance(g[4], list) and g[4][:1] == ["str"]}

    def begin(self, p):
        p.mem[LOG] = ("nolog",)
        for o in self.fields:
            p.mem[(("arg", 0), o)] = ("init", ("arg", 0), o)
        for k, o in self.lists:
            p.mem[(("arg", k), o)] = ("T0", ("arg", k), o)
        for k in self.streams:
            p.mem[(("arg", k), 0)] = ("stream", ("arg", k), 0)

    def log(self, p, *item):
        p.mem[LOG] = ("log", p.mem[LOG]) + item

    def text(self, v):
        """what a char pointer stands for"""
        if isinstance(v, tuple) and v[0] == "ptr":
            if v[1][0] == "g":
                t = self.strings.get(v[1][1])
                if t is not None:
                    return ("lit", t)
            if v[1][0] == "in":
                return ("argv", v[1][1], v[1][2])
            if v[1][0] == "char" and v[2] == 0:
                return ("tail", v[1][1], v[1][2])
            raise Unknown("text " + str(v)[:60])
        return v

    def load(self, p, ptr, ty):
        if isinstance(ptr, tuple) and ptr[0] == "ptr" and ptr[1][0] == "char":
            return ("ch", ptr[1][1], add(ptr[1][2], ptr[2]))
        if isinstance(ptr, tuple) and ptr[0] == "ptr" and ptr[1][0] == "in" and ty == "i8":
            return ("ch", self.text(("ptr",) + ptr[1:2] + (0,)), ptr[2])
        return super().load(p, ptr, ty)

    def value(self, p, x):
        """the string, list, variable or iterator at a place"""
        if not (isinstance(x, tuple) and x[0] == "ptr"):
            return x
        k = (x[1], x[2])
        if k in p.mem:
            return p.mem[k]
        if x[1][0] == "at*":
            return ("element", x[1][1]) if x[2] == 0 else ("init", x[1], x[2])
        if x[1][0] == "item":
            return x[1]
        return ("T0", x[1], x[2])

    def call(self, p, i):
        if "callee" in i:
            d = self.unit.dem(i["callee"])
            if d == "exit":
                self.log(p, "exit", self.val(p, i["ops"][0]))
                return "stop"
        return super().call(p, i)

    def named(self, p, i, d, a):
        a = [x for x in a]
        nm = base_name(d)
        short = nm.split("::")[-1]
        o = [self.val(p, x) for x in i["ops"] if not (isinstance(x, list) and x[0] == "bb")]
        dest = o.pop(0) if i.get("sret") == 0 else None
        put = lambda ptr, v: p.mem.__setitem__((ptr[1], ptr[2]), v)

        def give(v):
            if dest is not None:
                put(dest, v)
            else:
                p.env[i["id"]] = v
        if d == "strcmp":
            give(("strcmp", self.text(o[0]), self.text(o[1])))
        elif d in ("strtol", "__isoc23_strtol", "atoi", "atol", "atoll") and (len(o) == 1 or o[1] == 0):
            give(("toint", self.text(o[0])))
        elif d in ("strtod", "atof") and (len(o) == 1 or o[1] == 0):
            give(("tofloat", self.text(o[0])))
        elif "__normal_iterator" in d:
            return self.iterator(p, i, short, d, o, dest, give, put)
        elif "basic_string<" in d and re.search(r"basic_string<.*>::", d) and not d.startswith("std::vector"):
            return self.string(p, i, short, d, o, dest, give, put)
        elif re.match(r"^(bool )?std::operator(==|!=)<char", d.replace("operator== <", "operator==<").replace("operator!= <", "operator!=<")):
            x = [("lit", self.text(z)[1]) if "char const*)" in d and n == len(o) - 1 and isinstance(z, tuple) and z[0] == "ptr" and z[1][0] in ("g",) else self.text(z) if "char const*)" in d and n == len(o) - 1 else self.value(p, z) for n, z in enumerate(o)]
            t = ("streq", x[0], x[1])
            give(t if "operator==" in d else ("not", t))
        elif d.startswith("std::vector<") or re.match(r"^[^(]*std::vector<.*>::", d):
            return self.vector(p, i, short, d, o, dest, give, put)
        elif re.search(r"^(jobs::)?Job::Variable::|jobs::Job::Variable::", d):
            return self.variable(p, i, short, d, o, dest, give, put)
        elif short == "split_string":
            give(("split", self.value(p, o[0])))
        elif short == "parse_line":
            give(("parsed", self.value(p, o[0])))
        elif short == "parse_file":
            k = (o[1][1], o[1][2])
            s = self.value(p, o[0])
            p.mem[k] = ("+file", self.value(p, o[1]), s)
            give(("fileline", s))
        elif short == "compute_number_of_jobs":
            give(("product", self.value(p, ("ptr", o[0][1], add(o[0][2], self.at_list)))))
        elif short == "dump" and "OutDataFile" in d:
            self.log(p, "dump", o[1] if not (isinstance(o[1], tuple) and o[1][0] == "ptr") else self.load(p, o[1], "double"), ("named", self.value(p, o[2])))
        elif short in ("select_job",):
            self.log(p, "select_job", o[0], o[1])
        elif short == "find_variable":
            give(("ptr", ("at*", ("found", o[0], self.value(p, o[1]))), 0))
        elif re.search(r"std::(__cxx11::)?basic_(i|o|if|of)?stream<|std::[io]stream|std::operator<<|std::endl|std::basic_ios|std::ios", d) or "std::getline" in d:
            return self.stream(p, i, short, d, o, dest, give, put)
        elif short.startswith("~") or "std::allocator" in d:
            return None
        else:
            return super().named(p, i, d, a)
        return None

    at_list = 32

    def string(self, p, i, short, d, o, dest, give, put):
        if short.startswith("~"):
            return None
        if short == "basic_string":
            ps = d[d.index("basic_string(", d.rindex("::basic_string")) if "::basic_string(" in d else d.rindex("basic_string<"):] if False else d
            if len(o) == 1:
                put(o[0], ("lit", ""))
            elif re.search(r"\(char const\*", d):
                if len(o) > 3:
                    raise Unknown("string")
                put(o[0], self.text(o[1]))
            elif len(o) == 2:
                put(o[0], self.value(p, o[1]))
            else:
                raise Unknown("string")
        elif short in ("c_str", "data"):
            give(self.value(p, o[0]))
        elif short in ("size", "length"):
            give(("len", self.value(p, o[0])))
        elif short == "empty":
            give(("eq", ("len", self.value(p, o[0])), 0))
        elif short in ("operator[]", "at"):
            give(("ptr", ("char", self.value(p, o[0]), o[1]), 0))
        elif short == "substr":
            give(("substr", self.value(p, o[0]), o[1], o[2]))
        elif short == "operator=":
            put(o[0], self.text(o[1]) if "(char const*)" in d else self.value(p, o[1]))
            p.env[i["id"]] = o[0]
        elif short in ("operator+=", "append") and len(o) == 2:
            put(o[0], ("cat", self.value(p, o[0]), self.text(o[1]) if "(char const*)" in d else self.value(p, o[1])))
            p.env[i["id"]] = o[0]
        elif short == "clear":
            put(o[0], ("lit", ""))
        elif short in ("find", "rfind") and len(o) == 3 and ("basic_string<char, std::char_traits<char>, std::allocator<char>> const&, unsigned long)" in d or "(char const*, unsigned long)" in d):
            give((short, self.value(p, o[0]), self.text(o[1]) if "(char const*" in d else self.value(p, o[1]), o[2]))
        elif short == "compare" and len(o) == 4 and ("allocator<char>> const&) const" in d or "char const*) const" in d):
            give(("strcmp", ("substr", self.value(p, o[0]), o[1], o[2]), self.text(o[3]) if "(char const*)" in d or "char const*) const" in d else self.value(p, o[3])))
        elif short == "compare" and len(o) == 2:
            give(("strcmp", self.value(p, o[0]), self.text(o[1]) if "(char const*)" in d else self.value(p, o[1])))
        else:
            raise Unknown("call of " + short)
        return None

    def vector(self, p, i, short, d, o, dest, give, put):
        if short.startswith("~"):
            return None
        if short == "vector":
            if len(o) == 1:
                put(o[0], ("list",))
            elif len(o) == 2 and "vector const&" in d or "&&" in d:
                put(o[0], self.value(p, o[1]))
            else:
                raise Unknown("list")
        elif short in ("size",):
            give(("len", self.value(p, o[0])))
        elif short == "empty":
            give(("eq", ("len", self.value(p, o[0])), 0))
        elif short in ("begin", "cbegin", "end", "cend"):
            v = self.value(p, o[0])
            give(("iter", v, 0 if "begin" in short else ("len", v)))
        elif short in ("operator[]", "at"):
            v = self.value(p, o[0])
            give(("ptr", ("at*", ("iter", v, o[1])), 0))
        elif short in ("front", "back"):
            v = self.value(p, o[0])
            give(("ptr", ("at*", ("iter", v, 0 if short == "front" else ("+", ("len", v), -1))), 0))
        elif short in ("push_back", "emplace_back"):
            put(o[0], ("push", self.value(p, o[0]), self.value(p, o[1])))
        elif short in ("reserve", "shrink_to_fit"):
            return None
        elif short == "clear":
            put(o[0], ("list",))
        else:
            raise Unknown("call of " + short)
        return None

    def iterator(self, p, i, short, d, o, dest, give, put):
        at = lambda x: self.value(p, x)
        if re.search(r"operator(!=|==|<|-)<|operator(!=|==|<|-) ?<", d) and len(o) == 2:
            k = re.search(r"operator(!=|==|<|-)", d).group(1)
            t = {"!=": "ne", "==": "eq", "<": "lt", "-": "-"}[k]
            give((t, ("pos", at(o[0])), ("pos", at(o[1]))))
        elif short in ("operator++", "operator--"):
            v = at(o[0])
            put(o[0], ("move", v, 1 if "++" in short else -1))
            give(o[0] if len(o) == 1 else v)
        elif short in ("operator+", "operator-", "operator+=", "operator-="):
            v = ("move", at(o[0]), o[1] if "+" in short else mul(-1, o[1]))
            if short.endswith("="):
                put(o[0], v)
                v = o[0]
            give(v)
        elif short in ("operator*", "operator->"):
            give(("ptr", ("at*", at(o[0])), 0))
        elif short == "operator[]":
            give(("ptr", ("at*", ("move", at(o[0]), o[1])), 0))
        elif short == "base":
            give(o[0])
        elif short == "__normal_iterator" and len(o) == 2:
            put(o[0], at(o[1]))
        else:
            raise Unknown("call of " + short)
        return None

    def variable(self, p, i, short, d, o, dest, give, put):
        if short.startswith("~"):
            return None
        if short == "Variable":
            if len(o) == 1:
                put(o[0], ("novar",))
            elif len(o) == 2:
                put(o[0], self.value(p, o[1]))
            else:
                put(o[0], ("var", self.value(p, o[1])) + tuple(o[2:]))
        elif short == "size":
            give(("vsize", self.value(p, o[0])))
        elif short == "name":
            give(o[0])
        elif short == "value":
            give(("vvalue", self.value(p, o[0])))
        elif short == "select":
            self.log(p, "select", self.value(p, o[0]), o[1])
        elif short == "operator=":
            put(o[0], self.value(p, o[1]))
            p.env[i["id"]] = o[0]
        else:
            raise Unknown("call of " + short)
        return None

    def stream(self, p, i, short, d, o, dest, give, put):
        if "getline" in d:
            s = o[0]
            k = (s[1], s[2])
            n = p.mem.get(k, ("stream", s[1], s[2]))
            put(o[1], ("lineof", n))
            p.mem[k] = ("readline", n)
            give(s)
        elif re.search(r"basic_i?f?stream", short) and not short.startswith("~") and len(o) >= 2:
            put(o[0], ("file", self.text(o[1]) if "char const*" in d else self.value(p, o[1])))
        elif short in ("operator bool", "good"):
            give(("good", self.value(p, self.whole(p, o[0]))))
        elif short in ("operator!", "fail"):
            give(("not", ("good", self.value(p, self.whole(p, o[0])))))
        elif short.startswith("~"):
            return None
        elif "operator<<" in short or "_M_insert" in short or "endl" in short or "operator<<" in d or short in ("put", "flush", "write"):
            s = o[0]
            if isinstance(s, tuple) and s[0] == "ptr" and s[1] == ("g", "_ZSt4cout") and len(o) == 2:
                x = o[1]
                self.log(p, "print", x if not (isinstance(x, tuple) and x[0] == "ptr") else ("lit", "text"))
            if i.get("ty") == "ptr":
                p.env[i["id"]] = s
        else:
            raise Unknown("call of " + d[:60])
        return None

    def whole(self, p, s):
        """the stream a part of which (basic_ios) is asked"""
        if isinstance(s, tuple) and s[0] == "ptr":
            for k in sorted((k for k in p.mem if k[0] == s[1] and isnum(k[1])), key=lambda k: k[1]):
                return ("ptr",) + k
            if not isnum(s[2]):
                return ("ptr", s[1], 0)
        return s


class It:
    __slots__ = ("items", "k")

    def __init__(self, items, k):
        self.items, self.k = items, k

    def at(self):
        if not 0 <= self.k < len(self.items):
            raise Broken("an element outside the list is used")
        return self.items[self.k]


class Var:
    """a variable of a job"""
    __slots__ = ("name", "min", "max", "n")

    def __init__(self, name="", lo=0, hi=0, n=0):
        self.name, self.min, self.max, self.n = name, lo, hi, n

    def key(self):
        return (self.name, self.min, self.max, self.n)

    def __eq__(self, o):
        return isinstance(o, Var) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s=%s..%s/%s" % self.key()


class Sample(Eval):
    """argv: the words of the command line; lines: what a file holds; split, parse: meanings of the library's own parsers"""

    def __init__(self, leaf=None, argv=(), lines=(), split=None, parse=None, files=None):
        super().__init__(leaf)
        self.argv, self.lines, self.split, self.parse, self.files = argv, lines, split, parse, files

    def op_lit(self, s):
        return s

    def txt(self, t):
        x = self.ev(t)
        return x.name if isinstance(x, Var) else x

    def op_argv(self, base, off):
        k, r = divmod(self.ev(off), 8)
        if r or not 0 <= k < len(self.argv):
            raise Broken("a word beyond the end of the command line is read")
        return self.argv[k]

    def op_strcmp(self, a, b):
        a, b = self.txt(a), self.txt(b)
        return (a > b) - (a < b)

    def op_streq(self, a, b):
        a, b = self.two(a, b)
        return (a.name if isinstance(a, Var) else a) == (b.name if isinstance(b, Var) else b)

    def op_toint(self, a):
        m = re.match(r"\s*[-+]?\d+", self.ev(a))
        return int(m.group(0)) if m else 0

    def op_tofloat(self, a):
        m = re.match(r"\s*[-+]?\d+(\.\d*)?([eE][-+]?\d+)?", self.ev(a))
        return num(float(m.group(0))) if m else 0

    def op_len(self, a):
        a = self.ev(a)
        return len(a.name) if isinstance(a, Var) else len(a)

    def op_ch(self, s, i):
        s, i = self.txt(s), self.ev(i)
        if not 0 <= i <= len(s):
            raise Broken("a character beyond the end of a text is read")
        return ord(s[i]) if i < len(s) else 0

    def op_substr(self, s, i, n):
        s, i, n = self.txt(s), self.ev(i), self.ev(n)
        if i > len(s):
            raise Broken("text taken from beyond the end of another")
        return s[i:i + n] if n >= 0 else s[i:]

    def op_find(self, s, x, k):
        return self.txt(s).find(self.txt(x), self.ev(k))

    def op_rfind(self, s, x, k):
        s, x, k = self.txt(s), self.txt(x), self.ev(k)
        return s.rfind(x) if k < 0 else s.rfind(x, 0, k + len(x))

    def op_cat(self, a, b):
        return self.txt(a) + self.txt(b)

    def op_list(self):
        return ()

    def op_push(self, l, x):
        return self.ev(l) + (self.ev(x),)

    def op_iter(self, l, k):
        return It(self.ev(l), self.ev(k))

    def op_move(self, it, k):
        it, k = self.two(it, k)
        return It(it.items, it.k + k)

    def op_pos(self, it):
        return self.ev(it).k

    def op_element(self, it):
        return self.ev(it).at()

    def op_item(self, l, k):
        return It(self.ev(l), self.ev(k)).at()

    def op_named(self, x):
        return self.ev(x)

    def op_nolog(self):
        return ()

    def op_log(self, old, what, *args):
        old = self.ev(old)
        got = []
        for x in args:
            if isinstance(x, tuple) and x[0] == "element":
                got.append(self.ev(x[1]).k)
            elif isinstance(x, tuple) and x[0] == "ptr":
                got.append(x[1:])
            else:
                got.append(self.ev(x))
        return old + ((what,) + tuple(got),)

    def op_novar(self):
        return Var()

    def op_var(self, name, lo, hi, n=10):
        return Var(self.ev(name), self.ev(lo), self.ev(hi), self.ev(n))

    def op_vsize(self, v):
        return self.ev(v).n

    def op_vvalue(self, v):
        return ("value of", self.ev(v))

    def op_split(self, s):
        return self.split(self.ev(s))

    def op_parsed(self, s):
        return self.parse(self.ev(s))

    def op_file(self, nm):
        return ("file", self.ev(nm))

    def op_fileline(self, f):
        return self.files(self.ev(f))[1]

    def push_file(self, l, f):
        return self.ev(l) + tuple(self.files(self.ev(f))[0])

    def op_product(self, l):
        n = 1
        for v in self.ev(l):
            n *= v.n
        return n

    def op_stream(self, *a):
        return 0

    def op_readline(self, s):
        return self.ev(s) + 1

    def op_lineof(self, s):
        k = self.ev(s)
        return self.lines[k] if k < len(self.lines) else ""

    def op_good(self, s):
        return self.ev(s) <= len(self.lines)

    def op_ptr(self, base, off):
        if base[0] == "at*":
            it = self.ev(base[1])
            return 0 if it is None else ("&", it.k)
        raise NoEval("address")

    def op_size(self, a):
        return len(self.ev(a))

    def op(self, t):
        if t[0] == "operator[]":
            return It(self.ev(t[1]), self.ev(t[2])).at()
        if t[0] == "+file":
            return self.push_file(*t[1:])
        if t[0] == "T0" and t[1][0] == "g":
            return Var()
        return super().op(t)
