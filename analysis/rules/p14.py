"""Loops that OpenMP may run in parallel give the same result whatever the number of threads and the schedule."""
import importlib
import compare
import engine
import layercases
import program as prg
from program import program, AnalysisError, walk as nodes
from compare import Verdict, Unknown, cnum, cptr, cloc, asint
from terms import *
from report import Report

MIN = 15
RULES = ("p07", "p08", "p10", "p21", "p23")
RANDOM = ("rand", "random", "drand48", "lrand48", "strtok", "localtime", "gmtime")
PLAY = compare.Play


def name_of(lv):
    while lv.op in ("fld", "el", "arr", "vdata", "addr"):
        if lv.op == "fld" and not str(lv.a[1]).startswith("#"):
            return str(lv.a[1])
        lv = lv.a[0]
    if lv.op == "var":
        return str(lv.a[0]).split("@")[0]
    return str(lv.a[-2] if len(lv.a) > 1 and isinstance(lv.a[1], str) else lv.a[0]) if lv.a else show(lv)


class Seen:
    """what is known of a parallel loop"""

    def __init__(self, L):
        self.L, self.runs, self.races, self.calls = L, 0, {}, set()
        self.unsure = False


LOOPS = {}


def key(L):
    return (L.file, L.line)


class Memory(dict):
    """the memory of a run, noting which iteration touches which location"""

    def __init__(self, d, active):
        super().__init__(d)
        self.active = active

    def get(self, k, d=None):
        for t in self.active:
            t.read(k)
        return dict.get(self, k, d)

    def __setitem__(self, k, v):
        for t in self.active:
            t.write(k)
        dict.__setitem__(self, k, v)


class Iterations:
    def __init__(self):
        self.it = None
        self.w, self.r = {}, {}

    def read(self, k):
        if self.it is not None:
            self.r.setdefault(k, set()).add(self.it)

    def write(self, k):
        if self.it is not None:
            self.w.setdefault(k, set()).add(self.it)

    def conflict(self, private):
        for k, its in self.w.items():
            if len(its) > 1:
                what = ("written", sorted(its)[:2])
            else:
                other = self.r.get(k, set()) - its
                if not other:
                    continue
                what = ("written and read", [min(its), min(other)])
            x = k
            own = False
            while isinstance(x, tuple):
                if x in private or ("&", x) in private:
                    own = True
                x = x[1] if len(x) > 1 else None
            if not own:
                return k, what
        return None


class Parallel(PLAY):
    """as Play, but a loop that may run in parallel is checked for locations two iterations share"""

    def __init__(self, effects, kinds=("store",)):
        super().__init__(effects, kinds)
        for e in effects:
            for L in e.loops:
                if L.omp is not None:
                    S = LOOPS.setdefault(key(L), Seen(L))
                    if e.kind == "call":
                        S.calls.add(e.d.get("q", ""))

    def run(self, c, on=None):
        if not isinstance(c.mem, Memory):
            active = []
            c.mem = Memory(c.mem, active)
            c.active = active
            init = c.init

            def first(loc):
                for t in active:
                    t.read(loc)
                return init(loc)
            c.init = first
        self.mine = c
        super().run(c, on)

    def block(self, effs, d, c):
        i, n = 0, len(effs)
        while i < n:
            e = effs[i]
            if len(e.loops) > d and e.loops[d].omp is not None:
                L = e.loops[d]
                j = i
                while j < n and len(effs[j].loops) > d and effs[j].loops[d] is L:
                    j += 1
                self.parallel(L, effs[i:j], d, c)
                i = j
                continue
            j = i + 1
            while j < n and not (len(effs[j].loops) > d and effs[j].loops[d].omp is not None):
                j += 1
            super().block(effs[i:j], d, c)
            i = j

    def parallel(self, L, effs, d, c):
        N = asint(cnum(L.n)(c))
        c.steps += max(N, 0)
        if c.steps > c.limit:
            raise Unknown("too large")
        t = Iterations()
        c.active.append(t)
        old = c.k.get(L.k)
        for it in range(N):
            c.k[L.k] = it
            before = set(c.saved)
            t.it = it
            self.block(effs, d + 1, c)
            t.it = None
            for x in [x for x in c.saved if x not in before]:
                del c.saved[x]
            if L.early is not F and cnum(L.early)(c):
                break
        if old is None:
            c.k.pop(L.k, None)
        else:
            c.k[L.k] = old
        c.active.remove(t)
        S = LOOPS.setdefault(key(L), Seen(L))
        if N > 1:
            S.runs += 1
            private = set()
            for p in L.private:
                try:
                    private.add(cptr(p)(c)[0] if p.op != "var" else cloc(p)(c))
                except Unknown:
                    pass
            x = t.conflict(private)
            if x is not None:
                S.races.setdefault("memory", "location %r is %s by iterations %s (%s)" % (x[0][-1] if x[0][0] != "el" else x[0][2], x[1][0], " and ".join(map(str, x[1][1])),
                                                                                          ", ".join("%s=%s" % (show(a), v) for a, v in list(c.assign.items())[:12])))


def scenarios(R):
    """run the functions of other rules, with OpenMP, as they are called there"""
    real = program
    LOOPS.clear()
    engine.PARALLEL.clear()
    mods = [layercases, importlib.import_module("session")] + [importlib.import_module("rules." + r) for r in RULES]
    keep = [(m, m.program) for m in mods if hasattr(m, "program")]
    nf = compare.nf_equal
    try:
        for m, _ in keep:
            m.program = lambda c: real("omp" if c == "ref" else c)
        compare.Play = Parallel
        compare.nf_equal = lambda a, b: False
        for r in RULES:
            q = Report("P14", R.tier, R.seed)
            importlib.import_module("rules." + r).run(q)
            R.uses(*q.fns)
        extra(R)
    finally:
        compare.Play = PLAY
        compare.nf_equal = nf
        for m, p in keep:
            m.program = p
    for L in engine.PARALLEL:
        S = LOOPS.setdefault(key(L), Seen(L))
        for v in L.shared:
            S.races.setdefault("%s %s" % ("variable" if v.op == "var" else "location", name_of(v)), "every iteration assigns it")
        S.unsure |= L.unsure

def extra(R):
    """layers whose passes no other rule compares"""


def run(R):
    R.configs.add("omp")
    R.assumptions += ["calls that leave the repository (mathematical functions) keep no state", "memory of different tensors does not overlap", "the configuration without OpenCL"]
    P = program("omp")
    where = {}
    for f in P.fns.values():
        for x in nodes(f.get("body") or {}):
            if x["k"] == "omp":
                loop = next((y["l"] for y in nodes(x.get("b") or {}) if y["k"] in ("for", "rangefor", "while")), x["l"])
                where[f["file"], loop] = (f, x)
    scenarios(R)
    R.count("parallel_loops", len(where))
    for (file, line), (f, x) in sorted(where.items(), key=lambda y: (y[0][0], y[0][1])):
        at = "%s:%d" % (file, x["l"])
        R.uses(f["q"])

        def g(file=file, line=line, f=f, x=x):
            inner = [y["dir"] for y in nodes(x.get("b") or {}) if y["k"] == "omp" and "For" not in y.get("dir", "")]
            if "For" not in x.get("dir", "") or inner:
                raise Unknown("construct %s %s" % (x.get("dir"), inner))
            S = LOOPS.get((file, line))
            if S is None or not (S.runs or S.races):
                raise Unknown("no analysed call runs this loop")
            bad = sorted(q for q in S.calls if q.split("::")[-1] in RANDOM)
            if bad:
                S.races["call of " + bad[0]] = "its state is shared"
            if S.races:
                k = sorted(S.races)[0]
                return Verdict("different", None, {"function": f["q"], "loop": line, "shared": k, "how": S.races[k]})
            if S.unsure:
                raise Unknown("a single iteration may assign what all share")
            return Verdict("equal", "identity test", points=S.runs)
        n = sum(1 for (a, b) in where if a == file and where[a, b][0] is f and b <= line)
        R.guard("%s, loop %d" % (f["q"].replace("Conv::", ""), n), at, "no two iterations of a parallel loop touch the same location unless both only read it", g)
