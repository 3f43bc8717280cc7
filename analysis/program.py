"""Parse /repo's current sources into a whole-program view.

Every run dumps the type-checked AST of all translation units of /repo (library,
tools and, where asked for, the OpenCL kernels) with the clang-18 front end, for
one of the build configurations below, and merges the dumps."""
import re
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CN24_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "cn24ast")
LLVM = "/usr/lib/llvm-18"


PLAIN = re.compile(r"#1(?=[a-z*$S])")

class AnalysisError(Exception):
    """the analysis itself cannot give an answer"""


class NeverReturns(AnalysisError):
    """every path of the called function ends in an exception"""


INC = ["include", "include/cn24", "include/cn24/util", "include/cn24/net", "include/cn24/math",
       "include/cn24/factory", "include/private"]
BASE = ["-DBUILD_LINUX", "-DBUILD_POSIX", "-DBUILD_PNG", "-DBUILD_JPG", '-DBUILD_DATE="d"',
        '-DGIT_SHA1="x"', "-std=c++11", "-w", "-resource-dir", LLVM + "/lib/clang/18"]
CONFIGS = {
    "ref": [],
    "blas": ["-DBUILD_BLAS", "-DBLAS_ATLAS"],
    "opencl": ["-DBUILD_OPENCL"],
    "omp": ["-fopenmp"],
}
CLFLAGS = ["-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-w",
           "-D__read_only=", "-D__write_only=", "-resource-dir", LLVM + "/lib/clang/18"]


def build_tool():
    src = os.path.join(VERIF, "tool", "cn24ast.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["/usr/bin/clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("building the AST extractor failed:\n" + r.stderr[-2000:])
    os.replace(tmp, TOOL)


def _tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def _all_sources():
    out = []
    for d in ("src", "tools", "include", "kernels"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                out.append(os.path.join(root, f))
    return sorted(out)


def sources():
    s = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/tools/*.cpp"))
    return s


SPECS = os.path.join(VERIF, "specs")


def dump(config, again=3):
    """-> list of record lines (parsed)"""
    build_tool()
    allf = _all_sources() if config != "spec" else sorted(glob.glob(SPECS + "/*"))
    with open(os.path.join(VERIF, "tool", "cn24ast.cpp"), "rb") as f:
        th = hashlib.sha256(f.read()).hexdigest()
    key = hashlib.sha256((_tree_hash(allf) + config + th + repr(BASE) + repr(CONFIGS) + repr(CLFLAGS)).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, "ast")
    os.makedirs(cdir, exist_ok=True)
    cache = os.path.join(cdir, "%s-%s.jsonl" % (config, key))
    if not os.path.exists(cache):
        if config == "cl":
            srcs = sorted(glob.glob(REPO + "/kernels/*.cl"))
            flags = CLFLAGS
        elif config == "spec":
            srcs = sorted(glob.glob(SPECS + "/*.cpp"))
            flags = ["-std=c++11", "-w", "-resource-dir", LLVM + "/lib/clang/18"]
        else:
            srcs = sources()
            flags = BASE + CONFIGS[config] + ["-I" + os.path.join(REPO, i) for i in INC]
        if not srcs:
            raise AnalysisError("no sources found for configuration " + config)
        # one dump per translation unit, keyed by its own text and all headers
        hk = _tree_hash([f for f in allf if not f.endswith((".cpp", ".cl"))]) + config + th + repr(flags)
        root = REPO if config != "spec" else SPECS
        tdir = os.path.join(cdir, "tu")
        os.makedirs(tdir, exist_ok=True)

        def tukey(f):
            with open(f, "rb") as fh:
                return os.path.join(tdir, hashlib.sha256(hk.encode() + os.path.relpath(f, root).encode() + root.encode() + b"\0" + fh.read()).hexdigest()[:32])
        keys = {f: tukey(f) for f in srcs}
        todo = [f for f in srcs if not os.path.exists(keys[f])]
        todo.sort(key=lambda f: -os.path.getsize(f))
        n = min(8, os.cpu_count() or 4)

        def run(f):
            o = keys[f] + ".%d" % os.getpid()
            r = subprocess.run([TOOL, "--root=" + root, "--out=" + o, f, "--"] + flags, capture_output=True, text=True)
            if not os.path.exists(o):
                return r.stderr[-800:]
            os.replace(o, keys[f])
        def extract(todo):
            with ThreadPoolExecutor(n) as ex:
                for err in ex.map(run, todo):
                    if err is not None:
                        raise AnalysisError("AST extraction failed: " + err)
        extract(todo)
        text = []
        for f in srcs:
            for attempt in range(4):
                try:
                    with open(keys[f]) as fh:
                        text.append(fh.read())
                    break
                except FileNotFoundError:       # removed by another check that tidied up
                    extract([f])
            else:
                raise AnalysisError("AST extraction failed: cache of %s keeps disappearing" % f)
        tmp = cache + ".%d" % os.getpid()
        with open(tmp, "w") as out:
            out.writelines(text)
        os.replace(tmp, cache)
        for pat, keep in ((os.path.join(cdir, config + "-*.jsonl"), 4), (os.path.join(tdir, "*"), 1200)):
            old = [f for f in glob.glob(pat) if f != cache]
            old.sort(key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
            for f in old[:-keep]:
                try:
                    os.remove(f)
                except OSError:
                    pass
    try:
        os.utime(cache)
        with open(cache) as f:
            return [json.loads(l) for l in f]
    except FileNotFoundError:
        if again == 0:
            raise AnalysisError("AST extraction failed: cache of %s keeps disappearing" % config)
        return dump(config, again - 1)


class Program:
    def __init__(self, config):
        self.config = config
        self.fns = {}       # usr -> fn
        self.byusr = {}
        self.byq = {}       # qualified name -> [fn]
        self.records = {}
        self.globals = {}
        self.units = []
        for r in dump(config):
            k = r["rec"]
            if k == "tu":
                self.units.append(r)
                if r.get("errors"):
                    raise AnalysisError("%s does not parse in configuration %s" % (r["file"], config))
            elif k == "fn":
                u = r["usr"] + "@" + r["file"]
                if u not in self.fns:
                    self.fns[u] = r
                    self.byusr.setdefault(r["usr"], []).append(r)
                    self.byq.setdefault(r["q"], []).append(r)
            elif k == "record":
                self.records.setdefault(r["q"], r)
            elif k == "global":
                self.globals.setdefault(r["q"], r)
        self.subs = {}
        for q, r in self.records.items():
            for b in r.get("bases", []):
                self.subs.setdefault(b, set()).add(q)

    plain_usr = None

    def lookup(self, fnref, file=None):
        c = self.byusr.get(fnref["usr"], [])
        if not c:
            # declaration and definition may differ in the const of parameters passed by value
            if self.plain_usr is None:
                self.plain_usr = {}
                for u, fs in self.byusr.items():
                    self.plain_usr.setdefault(PLAIN.sub("#", u), []).extend(fs)
            c = self.plain_usr.get(PLAIN.sub("#", fnref["usr"]), [])
        if len(c) > 1:
            same = [f for f in c if f["file"] == file]
            return same[0] if len(same) == 1 else None
        return c[0] if c else None

    def subclasses(self, q):
        out, st = set(), [q]
        while st:
            x = st.pop()
            for s in self.subs.get(x, ()):
                if s not in out:
                    out.add(s)
                    st.append(s)
        return out

    def ancestors(self, q):
        out, st = [], [q]
        while st:
            x = st.pop(0)
            for b in self.records.get(x, {}).get("bases", []):
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def one(self, q, nparams=None, pred=None):
        """the unique function with this qualified name"""
        c = [f for f in self.byq.get(q, []) if (nparams is None or len(f["params"]) == nparams)
             and (pred is None or pred(f))]
        if len(c) != 1:
            raise AnalysisError("anchor %s: %d definitions in configuration %s" % (q, len(c), self.config))
        return c[0]

    def methods(self, name, cls_pred=None):
        return [f for f in self.fns.values() if f["name"] == name and f.get("cls") and (cls_pred is None or cls_pred(f["cls"]))]

    def resolve_virtual(self, fnref, cls):
        """definition of the method that an object of dynamic class cls runs"""
        name, pt = fnref["name"], fnref["pt"]
        for c in [cls] + self.ancestors(cls):
            for f in self.byq.get(c + "::" + name, []):
                if f["pt"] == pt:
                    return f
        return None


_progs = {}


def program(config):
    if config not in _progs:
        _progs[config] = Program(config)
    return _progs[config]


def walk(n):
    """all AST nodes below n (dicts with a kind)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))
