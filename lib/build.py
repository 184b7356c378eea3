"""Front end: turn /repo's current sources into analysable SSA (see engine/irx.cpp).

Every run looks at the current working tree.  Compiled bitcode and extracted SSA are
cached under /verif/build keyed by the content of every file that entered the
translation unit, so an edited file (or header) is always re-analysed.
"""
import os, re, sys, json, hashlib, subprocess, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class AnalysisError(Exception):
    """The machinery could not analyse the tree (never reported as a violation)."""


def cfg_include():
    p = os.path.join(REPO, "_build", "include")
    if os.path.exists(os.path.join(p, "tensor", "config.h")):
        return p
    return os.path.join(VERIF, "config", "include")


def flags():
    ci = cfg_include()
    return ["-std=gnu++17", "-w", "-g1", "-O1", "-Xclang", "-disable-llvm-passes",
            "-fno-exceptions", "-fcx-limited-range", "-fno-math-errno",
            "-DHAVE_CONFIG_H", "-I" + ci, "-I" + os.path.join(ci, "tensor"),
            "-I" + REPO, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]


def sources():
    """The C++ translation units of libtensor, as listed by the project's own build."""
    inc = os.path.join(REPO, "src", "Makefile.inc")
    t = open(inc).read()
    out = []
    for name in ("basic_SOURCES", "fftw_SOURCES", "arpack_cpp_SOURCES", "rand64_SOURCES"):
        m = re.search(r"^%s\s*=((?:[^\n]*\\\n)*[^\n]*)" % name, t, re.M)
        if not m:
            raise AnalysisError("src/Makefile.inc no longer defines " + name)
        out += re.findall(r"\S+\.cc\b", m.group(1))
    return [os.path.join("src", x) for x in out]


def probes():
    d = os.path.join(VERIF, "probe")
    return sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(".cc"))


def _sha(data):
    return hashlib.sha256(data).hexdigest()[:24]


_fh = {}


def _file_hash(p):
    if p not in _fh:
        try:
            _fh[p] = _sha(open(p, "rb").read())
        except OSError:
            _fh[p] = None
    return _fh[p]


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-800:])
    return os.path.join(BUILD, "irx")


def compile_tu(src):
    """Returns the path of up-to-date bitcode for one translation unit."""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    fl = flags()
    tag = _sha((path + "\0" + "\0".join(fl)).encode())
    d = os.path.join(BUILD, "bc")
    os.makedirs(d, exist_ok=True)
    meta = os.path.join(d, tag + ".json")
    bc = os.path.join(d, tag + ".bc")
    try:
        m = json.load(open(meta))
        if os.path.exists(bc) and all(_file_hash(p) == h for p, h in m["deps"].items()):
            return bc, m["key"]
    except (OSError, ValueError, KeyError):
        pass
    dep = bc + ".d"
    tmp = bc + ".tmp.%d" % os.getpid()
    r = subprocess.run([LLVM + "/clang++"] + fl + ["-MD", "-MF", dep, "-emit-llvm", "-c", path, "-o", tmp],
                       capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        raise AnalysisError("clang cannot compile %s: %s" % (src, r.stderr[-1500:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    deps = [os.path.normpath(os.path.join(REPO, p)) for p in deps]
    deps = {p: _file_hash(p) for p in deps if not p.startswith("/usr/")}
    os.replace(tmp, bc)
    key = _sha(json.dumps([path, fl, sorted(deps.items())]).encode())
    json.dump({"deps": deps, "key": key}, open(meta, "w"))
    return bc, key


def extract(src, level):
    tool = os.path.join(BUILD, "irx")
    bc, key = compile_tu(src)
    opq = os.path.join(VERIF, "lib", "opaque_%s.txt" % level)
    k = _sha((key + _file_hash(opq) + _file_hash(os.path.join(BUILD, "irx.sum"))).encode())
    d = os.path.join(BUILD, "ssa")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, k + ".json")
    if not os.path.exists(out):
        tmp = out + ".tmp.%d" % os.getpid()
        r = subprocess.run([tool, "--opaque=" + opq, bc, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("extractor failed on %s (%s): %s" % (src, level, r.stderr[-800:]))
        os.replace(tmp, out)
    return out


def extract_all(srcs, level):
    ensure_tool()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return dict(zip(srcs, ex.map(lambda s: extract(s, level), srcs)))


if __name__ == "__main__":
    ensure_tool()
    lvs = sys.argv[1:]
    if lvs == ["--warm"]:
        lvs = sorted(x[7:-4] for x in os.listdir(HERE) if x.startswith("opaque_"))
    for lv in lvs:
        extract_all(sources() + probes(), lv)
