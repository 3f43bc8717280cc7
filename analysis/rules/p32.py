"""A data set description yields the data set it describes."""
import random
from terms import *
from program import program, AnalysisError, NeverReturns
from session import Session
from compare import Verdict, Unknown
import texts
from texts import text, lit, dec, word, open_stream, objects_differ, render
from rules import p21, p31
from rules.p20 import Numeral, folder, Bad, sure

MIN = 6
WHOLE, PATCH = "Conv::TensorStreamDataset", "Conv::TensorStreamPatchDataset"
SEL = {"training": 0, "testing": 1, "both": 2}
COUNT = (4, 2)


class Description:
    """a random data set description and what it means"""
    def __init__(self, rng, N, patch, error, nommap, weights, drop=(), color=None):
        c = self.classes = rng.randint(1, 4)
        self.patch, self.error, self.nommap = patch, error, nommap and patch
        odd = ["road", "colors", "training=x", "classes=2", "weights", "two words", "localized_error=kitti", "", "nommap", "# no comment"]
        self.names = [word("name%d" % i) if rng.random() < 0.4 else lit(rng.choice(odd)) for i in range(c)]
        self.colors = [rng.choice((0, 0xFFFFFF, 0x800000, 0x0000ff, 0xffffffff, rng.randint(0, 0xFFFFFF))) for _ in range(c)]
        self.weights = [N.new("weight", 1) if rng.random() < 0.7 else num(rng.choice((0, 2))) for _ in range(c)] if weights else [ONE] * c
        self.files = {w: word("file_" + w) for w in ("training", "testing")}
        col = [rng.choice(("0x%06x", "%06X", "0x%X", " %x"))[:] % v for v in self.colors]
        if color is not None:
            col[rng.randrange(c)] = color
        nl = rng.choice(("\n", "\n", "\n\n", "\n# a comment, classes=7\n"))
        free = [[text(w + "=", f)] for w, f in self.files.items() if w not in drop]
        self.has = {w: w not in drop for w in self.files}
        if error:
            free.append([lit("localized_error=" + error)])
        if self.nommap:
            free.append([lit("nommap")])
        fixed = [[lit("classes=%d" % c)] + self.names, [lit("colors")] + [lit(x) for x in col]]
        if weights:
            fixed.insert(rng.randint(1, 2), [lit("weights")] + [dec(w) if not is_num(w) else lit(rng.choice(("%d", "%d.0")) % int(w.a[0])) for w in self.weights])
        fixed = [x for x, w in zip(fixed, ["classes"] + [y[0].a[0] for y in fixed[1:]]) if w not in drop]
        rng.shuffle(free)
        out = []
        while free or fixed:
            if fixed and (not free or rng.random() < 0.5):
                out.append(fixed.pop(0))
            else:
                out.append(free.pop())
        t = [lit(rng.choice(("", "# a data set\n")))]
        for i, block in enumerate(out):
            for j, l in enumerate(block):
                last = i == len(out) - 1 and j == len(block) - 1
                t += [l, lit("" if last and rng.random() < 0.5 else "\n" if j < len(block) - 1 else nl)]
        self.text = text(*t)


class Case:
    def __init__(self, P, seed, patch, error=None, nommap=False, weights=False, drop=(), color=None, select="both", dont_load=False, missing=None):
        rng = random.Random(seed)
        N = Numeral()
        self.P, self.patch, self.select, self.dont_load, self.missing = P, patch, select, dont_load, missing
        self.D = Description(rng, N, patch, error, nommap, weights, drop, color)
        self.cls = PATCH if patch else WHOLE
        self.low = N.low
        self.load = [not dont_load and select in (w, "both") and self.D.has[w] for w in ("training", "testing")]
        self.what = "%s, %s%s" % (repr(render(self.D.text))[:500], "not loaded" if dont_load else "load " + select, ", %s does not exist" % missing if missing else "")

    def session(self):
        s = Session(self.P, depth=40)
        texts.prepare(s)
        s.E.cmp_fold = folder(self.low)
        s.E.hooks[p21.T_ + "::Resize"] = lambda E, fn, obj, args, n, st: ZERO
        self.opened, self.read = [], []
        h = s.E.hooks
        if not self.patch:
            X = p21.Streams(s)
            n = [num(c if l else 0) for c, l in zip(COUNT, self.load)]
            h[p21.ST + "::GetTensorCount"] = lambda E, fn, obj, a, nn, st: n[X.ptr.index(obj)] if obj in X.ptr else NotImplemented
            for w in p21.SIZES:
                h[p21.ST + "::" + w] = (lambda g: lambda E, fn, obj, a, nn, st: g(E, fn, obj, a, nn, st) if obj in X.ptr else NotImplemented)(h[p21.ST + "::" + w])
            h[p21.ST + "::FromFile"] = self.from_file(X)
        else:
            del h[p21.T_ + "::Resize"]
            X = Files(s, self)
            h["open"] = h["open64"] = X.open
            h["std::basic_ios<char>::good"] = X.good
        return s, X

    def from_file(self, X):
        def h(E, fn, obj, args, n, st):
            if E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("whether a file is loaded is not determined")
            p = E.arg(args[0], st)
            c = E.vec(E.lv(args[1], st), st)
            k = E.load(fld(c, "#size"), st)
            if not is_num(k):
                raise Unknown("number of colours")
            cols = [E.load(el(mk("vdata", c), num(i)), st) for i in range(int(k.a[0]))]
            self.opened.append((self.file(p), cols))
            return X.ptr[self.file(p)]
        return h

    def file(self, t):
        t = text(*texts.pieces(t)) if texts.known(t) else t
        for i, w in enumerate(("training", "testing")):
            if t is self.D.files[w] or t is text(self.D.files[w]):
                return i
        if texts.known(t):
            raise Bad("opens the file %s" % repr(render(t))[:80], self.what)
        raise Unknown("file that is opened: %s" % show(t)[:80])


class Files(p31.Files):
    """the two files of a data set of patches, opened by name"""
    def __init__(self, s, case):
        super().__init__(s, COUNT, [[(3, 2), (2, 4)], [(2, 3)]])
        self.case = case
        self.byfile = {}

    def which(self, p):
        if p.op == "addr":
            p = p.a[0]
        if p in self.lv:
            return self.lv.index(p)
        if p in self.byfile:
            return self.byfile[p]
        v = self.s.E.load(p, self.st)
        if v.op == "obj" and "basic_istringstream" in v.a[0]:
            k = 2 + len(self.byfile)
        elif v.op == "obj" and "basic_ifstream" in v.a[0]:
            k = self.case.file(v.a[2])
            if self.case.missing == ("training", "testing")[k]:
                raise Bad("reads from a file that could not be opened", self.case.what)
        else:
            raise Unknown("stream %s" % show(v)[:80])
        self.byfile[p] = k
        while len(self.counts) <= k:
            self.counts = list(self.counts) + [0]
            self.lv.append(mk("gvar", "stream%d" % len(self.lv)))
        return k

    def at(self, k, st):
        v = st.env.get(fld(self.lv[k], "at"), ZERO)
        if not is_num(v):
            raise Unknown("position in a file")
        return int(v.a[0])

    def read(self, E, fn, obj, args, n, st):
        self.st = st
        v = [E.lv(x, st) if isinstance(x, dict) and i == 0 else E.ev(x, st) if isinstance(x, dict) else x for i, x in enumerate(args)]
        k = self.which(v[0])
        if len(v) < 2 or v[1] is F:
            fd = v[3] if len(v) > 3 and v[2] is not F else ZERO
            self.case.read.append((k, self.at(k, st), fd))
        return super().read(E, fn, obj, [v[0]] + v[1:], n, st)

    def eof(self, E, fn, obj, args, n, st):
        p = obj.a[0] if obj.op == "addr" else el(obj)
        if fld(p, texts.T_REST) in st.env:
            return texts.Stream(E, p, st).get(texts.T_EOF, F)
        self.st = st
        return st.env.get(fld(self.lv[self.which(p)], "end"), F)

    def clear(self, E, fn, obj, args, n, st):
        p = obj.a[0] if obj.op == "addr" else el(obj)
        if fld(p, texts.T_REST) in st.env:
            texts.Stream(E, p, st).put(texts.T_EOF, F)
            texts.Stream(E, p, st).put(texts.T_FAIL, F)
            return ZERO
        self.st = st
        return super().clear(E, fn, p, args, n, st)

    def seek(self, E, fn, obj, args, n, st):
        p = obj.a[0] if obj.op == "addr" else el(obj)
        if fld(p, texts.T_REST) in st.env:
            f = texts.Stream(E, p, st)
            f.put(texts.T_REST, f.get(texts.T_ALL, lit("")))
            return obj
        self.st = st
        return super().seek(E, fn, p, args, n, st)

    def peek(self, E, fn, obj, args, n, st):
        self.st = st
        return super().peek(E, fn, obj.a[0] if obj.op == "addr" else el(obj), args, n, st)

    def good(self, E, fn, obj, args, n, st):
        self.st = st
        v = E.load(el(obj), st)
        if v.op == "obj" and "basic_ifstream" in v.a[0]:
            return F if self.case.missing == ("training", "testing")[self.case.file(v.a[2])] else T
        return T if v.op == "obj" and "basic_istringstream" in v.a[0] else NotImplemented

    def open(self, E, fn, obj, args, n, st):
        if E.loops or [c for c in st.pc if c is not T]:
            raise Unknown("whether a file is mapped is not determined")
        k = self.case.file(texts.as_text(E, E.arg(args[0], st), st))
        self.case.opened.append(k)
        return num(-1) if self.case.missing == ("training", "testing")[k] else num(70 + k)


def create(C):
    s, X = C.session()
    f = open_stream(s, "file", C.D.text)
    if len(C.D.names) % 2:          # the file was read before
        S = texts.Stream(s.E, f, s.st)
        S.put(texts.T_REST, lit(""))
        S.put(texts.T_EOF, T)
        S.put(texts.T_FAIL, T)
    a = {0: f, 1: T if C.dont_load else F, 2: num(SEL[C.select])}
    if C.patch:
        a.update({3: num(2), 4: ONE})
    r = s.run(s.method(C.cls, "CreateFromConfiguration", len(a)), args=a)
    return s, X, r.ret


def expected(C, direct):
    """the data set constructed from the same settings"""
    D = C.D
    s, X = C.session()
    names = s.vec("names", D.names)
    colors = s.vec("colors", [num(c) for c in D.colors])
    weights = s.vec("weights", D.weights)
    err = mk("fnptr", "Conv::KITTIData::LocalizedError" if D.error == "kitti" else "Conv::DefaultLocalizedErrorFunction")
    args = [num(D.classes), mk("val", names), mk("val", colors), mk("val", weights)]
    if C.patch:
        X.counts = [c if l else 0 for c, l in zip(COUNT, C.load)]
        p = s.construct(C.cls, "dataset", X.lv[:2] + args + [num(2), ONE, err] + [num(70 + i) if l and not D.nommap else ZERO for i, l in enumerate(C.load)])
    else:
        streams = [q if l else s.construct("Conv::FloatTensorStream", "empty%d" % i, []) for i, (q, l) in enumerate(zip(X.ptr, C.load))]
        p = s.construct(C.cls, "dataset", streams + args + [err])
    return s, X, p


def check(C, R):
    s, X, p = create(C)
    R.uses(*s.fns)
    R.uses(*sorted(s.E.inlined))
    opened, read = C.opened, C.read
    s2, X2, q = expected(C, True)
    for g, get in (("GetClasses", None), ("GetTrainingSamples", None), ("GetTestingSamples", None), ("SupportsTesting", None), ("GetMethod", None), ("GetTask", None)):
        v, w = s.query(C.cls, g, p), s2.query(C.cls, g, q)
        if v is not w:
            sure(v, w)
            raise Bad("%s() = %s, the description asks for %s" % (g, show(v)[:60], show(w)[:60]), C.what)
    for g, want in (("GetClassNames", C.D.names), ("GetClassColors", [num(c) for c in C.D.colors]), ("GetClassWeights", C.D.weights)):
        x = s.fork()
        r = x.run(x.method(C.cls, g), this=p).ret
        have = x.vec_items(r.a[0]) if r.op == "val" else None
        if have is None:
            raise Unknown("%s: %s" % (g, show(r)[:60]))
        have = [text(*texts.pieces(y)) if texts.known(y) else y for y in have]
        want = [text(*texts.pieces(y)) if texts.known(y) else y for y in want]
        if have != want:
            sure(*[y for y in have if not texts.known(y)])
            raise Bad("%s() = %s, the description says %s" % (g, [render(y) if texts.known(y) else show(y) for y in have], [render(y) if texts.known(y) else show(y) for y in want]), C.what)
    d = objects_differ(s, p, s2, q, ignore=("training_stream_", "testing_stream_"))
    if d is not None:
        if any(v is not None and not texts.settled(v) for v in d[1:]):
            raise Unknown("member %s: %s, %s" % (d[0], d[1] and show(d[1])[:60], d[2] and show(d[2])[:60]))
        raise Bad("member %s is %s, constructed directly %s" % (d[0], d[1] and show(d[1])[:80], d[2] and show(d[2])[:80]), C.what)
    if not C.patch:
        want = [(i, [num(c) for c in C.D.colors]) for i, l in enumerate(C.load) if l]
        if sorted(opened, key=lambda x: x[0]) != want:
            raise Bad("loads the streams %s" % [("training", "testing")[i] for i, _ in opened] if [i for i, _ in opened] != [i for i, _ in want]
                      else "loads the streams with the colours %s" % [[show(c) for c in x] for _, x in opened], C.what)
    else:
        need = [0 if C.D.nommap else 1] * 2
        seen = {}
        for k, i, fd in read:
            if k < 2:
                seen.setdefault(k, []).append((i, fd))
        for k, l in enumerate(C.load):
            got = seen.get(k, [])
            want = [(i, num(70 + k) if need[k] else ZERO) for i in range(COUNT[k])] if l else []
            if sorted((i for i, _ in got)) != [i for i, _ in want]:
                raise Bad("reads tensors %s of the %s file" % ([i for i, _ in got], ("training", "testing")[k]), C.what)
            for i, fd in got:
                if not is_num(fd):
                    raise Unknown("file that is mapped: %s" % show(fd)[:60])
                if fd is not want[i][1]:
                    raise Bad("tensor %d of the %s file is %s" % (i, ("training", "testing")[k], "not mapped" if fd is ZERO else "mapped" if want[i][1] is ZERO else "mapped from another file"), C.what)
        if C.D.nommap and opened:
            raise Bad("a file is opened for mapping against the description", C.what)


def run(R):
    P = program("ref")
    R.configs.add("ref")
    R.assumptions += ["class names and file names are non-empty words where they are unknown", "data sets of at most four classes"]

    def where(c):
        f = [g for g in P.byq[c + "::CreateFromConfiguration"] if g.get("body")][0]
        return "%s:%d" % (f["file"], f["line"])

    def group(key, rule, cases):
        for patch in (False, True):
            def g(patch=patch):
                n = 0
                for i, kw in enumerate(cases):
                    for j in range(4 if R.thorough else 2):
                        C = Case(P, "%s %s %d %d %d" % (key, R.seed if R.thorough else "", i, j, patch), patch, **kw)
                        try:
                            check(C, R)
                        except Bad as e:
                            return Verdict("different", str(e.args[0]), {"description": e.args[1] if len(e.args) > 1 else C.what, "difference": str(e.args[0])})
                        except NeverReturns:
                            return Verdict("different", "a valid description is refused", {"description": C.what})
                        n += 1
                return Verdict("equal", points=n)
            R.guard("%s, %s" % (key, "patches" if patch else "whole images"), where(PATCH if patch else WHOLE), rule, g)

    def refused(key, rule, cases):
        for patch in (False, True):
            def g(patch=patch):
                n = 0
                for i, kw in enumerate(cases):
                    if kw.get("missing") and not patch:
                        continue
                    C = Case(P, "%s %d %d" % (key, i, patch), patch, **kw)
                    try:
                        create(C)
                    except NeverReturns:
                        n += 1
                        continue
                    except Bad as e:
                        return Verdict("different", str(e.args[0]), {"description": C.what})
                    return Verdict("different", "it is accepted", {"description": C.what})
                return Verdict("equal", points=n)
            R.guard("%s, %s" % (key, "patches" if patch else "whole images"), where(PATCH if patch else WHOLE), rule, g)
    group("classes, colours and files", "class names, colours, weights of one and both files are those of the description", [{}, {"error": "default"}, {"weights": True}] * 2)
    group("class weights", "every class has the weight of its line", [{"weights": True}, {"weights": True, "error": "kitti"}])
    group("localised error", "the error function is the one named", [{"error": "kitti"}, {"error": "default"}, {}])
    group("selection", "only the streams asked for are loaded",
          [{"select": "training"}, {"select": "testing"}, {"dont_load": True}, {"dont_load": True, "select": "testing"}, {"drop": ("training",)}, {"drop": ("testing",)}, {"drop": ("training", "testing")}])
    group("memory mapping", "files are mapped unless the description forbids it", [{"nommap": True}, {"nommap": True, "select": "testing"}, {"select": "both"}])
    refused("descriptions that make no sense", "are refused", [{"color": "0x1ffffffff"}, {"color": "FF00000000"}, {"drop": ("colors",)}, {"missing": "training"}, {"missing": "testing"}, {"missing": "training", "nommap": True}, {"missing": "testing", "nommap": True}])
