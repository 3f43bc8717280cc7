"""What a tensor stream hands out for every tensor of its files."""
import re
import random
from terms import *
from program import program, AnalysisError, NeverReturns
from session import Session, nonempty_hook
from compare import equiv, values_agree, Verdict, Unknown
from layercases import spec_effects
import texts
from texts import text, lit, word, render, pieces

MIN = 6
ST, T_, C_ = "Conv::TensorStream", "Conv::Tensor", "Conv::CompressedTensor"
B, I = "std::basic_ios<char>::", "std::basic_istream<char>::"
MAGIC = 0xC24CC24CC24CC24C
SCALE = "0.003921569f"
SIZE = ("GetWidth", "GetHeight", "GetMaps", "GetSamples")


class Bad(Exception):
    """a certain violation; arguments: what happens, in which case"""


def product(*v):
    r = ONE
    for x in v:
        r = mul(r, x)
    return r


class Disk:
    """named files: sequences of tensors of unknown size, images of unknown size, lists of file names"""
    def __init__(self, s, files):
        self.s, self.files, self.read_, self.fds = s, files, [], []
        self.old = h = s.E.hooks
        self.base = dict(h)
        for k in ("eof", "fail", "bad", "good", "operator bool", "operator!"):
            h[B + k] = self.state(k)
        h[B + "clear"] = self.on(B + "clear", self.clear)
        h[I + "seekg"] = self.on(I + "seekg", self.seek)
        h[I + "peek"] = self.on(I + "peek", self.peek)
        h[I + "tellg"] = self.on(I + "tellg", self.tell)
        h[I + "read"] = self.on(I + "read", self.raw)
        h["std::basic_ifstream<char>::close"] = lambda E, fn, obj, args, n, st: mk("void")
        h["std::basic_ifstream<char>::is_open"] = self.state("good")
        h["std::getline"] = self.getline
        h["open"] = h["open64"] = self.open
        h["close"] = lambda E, fn, obj, args, n, st: ZERO
        h[T_ + "::Deserialize"] = self.tensor("float")
        h[C_ + "::Deserialize"] = self.tensor("cts")
        h[C_ + "::DecompressData"] = self.decompress
        h[T_ + "::LoadFromFile"] = self.image

    # -- names -------------------------------------------------------------
    def name(self, t):
        if not texts.known(t):
            raise Unknown("name of a file: %s" % show(t)[:80])
        return text(*[lit(re.sub("//+", "/", p.a[0])) if p.op == "str" else p for p in pieces(text(*pieces(t)))])

    def kind(self, E, lv, st):
        v = E.load(lv, st)
        if v.op != "obj" or "basic_ifstream" not in v.a[0]:
            return None, None
        nm = self.name(v.a[2])
        f = self.files.get(nm)
        if f is not None and f[0] == "text" and fld(lv, texts.T_REST) not in st.env:
            texts.Stream(E, lv, st).open(f[1])
        return nm, f

    @staticmethod
    def of(obj):
        return obj.a[0] if obj.op == "addr" else el(obj)

    def on(self, q, f):
        def h(E, fn, obj, args, n, st):
            nm, k = self.kind(E, self.of(obj), st)
            if k is None or k[0] == "text":
                if nm is not None and k is None:
                    raise Bad("reads from a file that does not exist: %s" % repr(render(nm)))
                g = self.base.get(q)
                return g(E, fn, obj, args, n, st) if g else NotImplemented
            v = [E.ev(x, st) if isinstance(x, dict) else x for x in args]
            return f(E, self.of(obj), nm, k, v, n, st)
        return h

    def state(self, which):
        def h(E, fn, obj, args, n, st):
            lv = self.of(obj)
            nm, k = self.kind(E, lv, st)
            if nm is None or (k is not None and k[0] == "text"):
                g = self.base.get(B + which)
                return g(E, fn, obj, args, n, st) if g else NotImplemented
            if k is None:
                return {"eof": F, "fail": T, "bad": F, "good": F, "operator bool": F, "operator!": T}[which]
            e, b = st.env.get(fld(lv, "end"), F), st.env.get(fld(lv, "failed"), F)
            return {"eof": e, "fail": b, "bad": F, "good": and_(not_(e), not_(b)), "operator bool": not_(b), "operator!": b}[which]
        return h

    def getline(self, E, fn, obj, args, n, st):
        p = E.lv_or_temp(args[0], st)
        nm, k = self.kind(E, p, st)
        if nm is not None and k is None:
            raise Bad("reads from a file that does not exist: %s" % repr(render(nm)))
        return self.base["std::getline"](E, fn, obj, args, n, st)

    def open(self, E, fn, obj, args, n, st):
        if E.loops or [c for c in st.pc if c is not T]:
            raise Unknown("whether a file is mapped is not determined")
        nm = self.name(texts.as_text(E, E.arg(args[0], st), st))
        if nm not in self.files:
            return num(-1)
        self.fds.append(nm)
        return num(70 + sorted(self.files, key=render).index(nm))

    def image(self, E, fn, obj, args, n, st):
        v = E.arg(args[0], st)
        while v.op == "val":
            v = E.load(v.a[0], st)
        nm = self.name(v)
        k = self.files.get(nm)
        if k is None or k[0] != "image":
            raise Bad("loads the image %s" % repr(render(nm)))
        w, h, m = k[1]
        f = [g for g in E.prog.byq[T_ + "::Resize"] if len(g["params"]) == 7][0]
        E.call_fn(f, obj, [ONE, w, h, m, NULL, F, F], n, st)
        p = E.load(fld(el(obj), "data_ptr_"), st)
        E.call_fn(program("spec").one("spec::image_file"), None, [mk("purefn", "any pixel"), self.number(nm), p, product(w, h, m)], n, st)
        return mk("void")

    def number(self, nm):
        return num(sorted(self.files, key=render).index(nm))

    # -- binary files ------------------------------------------------------
    def at(self, lv, st):
        v = st.env.get(fld(lv, "at"), ZERO)
        if not is_num(v):
            raise Unknown("position in a file")
        return int(v.a[0])

    def clear(self, E, lv, nm, k, v, n, st):
        st.env[fld(lv, "end")] = st.env[fld(lv, "failed")] = F
        return mk("void")

    def seek(self, E, lv, nm, k, v, n, st):
        if not is_num(v[0]) or len(v) > 1 and v[1] is not ZERO or v[0].a[0] not in (0, 8):
            raise Unknown("seeks to %s" % show(v[0])[:60])
        st.env[fld(lv, "at")] = num({0: 0, 8: 1}[int(v[0].a[0])])
        st.env[fld(lv, "end")] = F
        return addr(lv)

    def tell(self, E, lv, nm, k, v, n, st):
        raise Unknown("position in a file")

    def peek(self, E, lv, nm, k, v, n, st):
        if self.at(lv, st) >= len(k[1]) + (k[0] == "cts"):
            st.env[fld(lv, "end")] = T
            return num(-1)
        return ZERO

    def raw(self, E, lv, nm, k, v, n, st):
        """the first eight bytes"""
        if self.at(lv, st) != 0 or v[1] is not num(8):
            raise Unknown("reads %s bytes" % show(v[1])[:60])
        first = MAGIC if k[0] == "cts" else k[2]
        if first is None:
            st.env[fld(lv, "end")] = st.env[fld(lv, "failed")] = T
        else:
            E.store(self.of(v[0]), num(first), st, n)
            st.env[fld(lv, "at")] = ONE if k[0] == "cts" else num(-1)
        return addr(lv)

    @staticmethod
    def contents(nm, i):
        return addr(mk("gvar", "contents of %s %d" % (render(nm), i)))

    def tensor(self, want):
        def h(E, fn, obj, args, n, st):
            if E.loops:
                raise Unknown("a tensor is read in a loop that is not unrolled")
            v = [E.lv(x, st) if isinstance(x, dict) and i == 0 else E.ev(x, st) if isinstance(x, dict) else x for i, x in enumerate(args)]
            lv = v[0]
            nm, k = self.kind(E, lv, st)
            if nm is None:
                raise Unknown("reads from %s" % show(lv)[:60])
            if k is None:
                raise Bad("reads from a file that does not exist: %s" % repr(render(nm)))
            at = self.at(lv, st) - (k[0] == "cts")
            if k[0] != want or at < 0:
                raise Bad("reads a tensor from the wrong place of the file %s" % repr(render(nm)))
            f = [g for g in E.prog.byq[(T_ if want == "float" else C_) + "::Resize"] if len(g["params"]) == 7][0]
            if at >= len(k[1]):
                st.env[fld(lv, "end")] = st.env[fld(lv, "failed")] = T
                E.call_fn(f, obj, [ZERO, ZERO, ZERO, ZERO, NULL, F, F] if want == "float" else [ZERO, ZERO, ZERO, ZERO, ZERO, NULL, F], n, st)
                return mk("void")
            st.env[fld(lv, "at")] = num(self.at(lv, st) + 1)
            s_, w, hh, m = k[1][at]
            if len(v) > 1 and v[1] is not F:
                p = addr(mk("gvar", "header only"))
            else:
                p = self.contents(nm, at)
            if len(v) > 3 and v[2] is T and v[3] is not ZERO:
                if not is_num(v[3]):
                    raise Unknown("file that is mapped: %s" % show(v[3])[:60])
                if v[3] is not num(70 + sorted(self.files, key=render).index(nm)):
                    raise Bad("maps another file than %s" % repr(render(nm)))
            E.call_fn(f, obj, [s_, w, hh, m, p, F, T] if want == "float" else [s_, w, hh, m, sym("length%d" % at), p, T], n, st)
            return mk("void")
        return h

    def decompress(self, E, fn, obj, args, n, st):
        out, src, size = E.ev(args[0], st) if isinstance(args[0], dict) else args[0], E.ev(args[2], st) if isinstance(args[2], dict) else args[2], E.arg(args[3], st)
        while size.op == "val":
            size = E.load(size.a[0], st)
        for nm, k in self.files.items():
            if k[0] == "cts":
                for i, (s_, w, hh, m) in enumerate(k[1]):
                    if src is self.contents(nm, i):
                        if size is not sym("length%d" % i):
                            raise Unknown("length of compressed data: %s" % show(size)[:60])
                        E.call_fn(program("spec").one("spec::block"), None, [src, out, product(s_, w, hh, m)], n, st)
                        E.store(E.lv(args[1], st), product(s_, w, hh, m), st, n)
                        return mk("void")
        raise Unknown("compressed data: %s" % show(src)[:80])


def shapes(c, tag="a"):
    return [(num(1) if i % 3 == 0 else sym("S%s%d" % (tag, i)), sym("W%s%d" % (tag, i)), sym("H%s%d" % (tag, i)), sym("M%s%d" % (tag, i))) for i in range(c)]


def session(P, files):
    s = Session(P, depth=40)
    texts.prepare(s)
    s.E.concrete = True
    return s, Disk(s, files)


def load(s, path, colors=()):
    """TensorStream::FromFile"""
    r = s.run(s.method(ST, "FromFile", 2), args={0: path, 1: mk("val", s.vec("colors", [num(c) for c in colors]))})
    p = r.ret
    cls = s.E.dyn.get(p) or (p.a[1] if p.op == "alloc" else None)
    if cls is None:
        raise Unknown("stream %s" % show(p)[:80])
    return p, cls


def ask(s, cls, p, what, i=None):
    return s.query(cls, what, p, args={} if i is None else {0: i})


def positive(p):
    """a polynomial that is not zero, as every size is at least one"""
    return bool(p) and all(c > 0 for c in p.values()) and all(q.op == "sym" and q not in MAYBE for m in p for q, _ in m)


MAYBE = (sym("n"), sym("s"))


def into(p, base):
    """the condition under which the pointer p points into the memory at base"""
    if p.op == "ite":
        c = to_bool(p.a[0])
        return or_(and_(c, into(p.a[1], base)), and_(not_(c), into(p.a[2], base)))
    b = ptr_parts(p)[0]
    if b.op == "ite":
        return into(b, base)
    return T if b is base else F


def counted(have, should, s, case):
    """the number of tensors, for all lengths of the compressed data"""
    if is_num(have):
        raise Bad("%s tensors instead of %s" % (show(have), show(should)), case)

    def pts(rng):
        v = {x: rng.randint(0, 4) for x in walk((have,) + tuple(s.assumptions())) if x.op == "sym"}
        v.update({x: rng.randint(1, 40) for x in v if x.a[0].startswith("length")})
        return v
    v = values_agree([(have, should)], pts, s.assumptions(), want=20)
    if v.kind == "different":
        raise Bad("%s tensors instead of %s" % (v.witness["implementation"], v.witness["required"]), "%s, %s" % (case, v.witness["point"]))
    if v.kind != "equal":
        raise Unknown("number of tensors %s" % show(have)[:60])


def run(R):
    old, NONZERO[0] = NONZERO[0], positive
    try:
        decide(R)
    finally:
        NONZERO[0] = old


def decide(R):
    P = program("ref")
    R.configs.add("ref")
    R.assumptions += ["files of at most four tensors", "sizes are exact integers", "compressed data decompresses to the tensor that was compressed",
                      "an image file loads as values of bytes"]
    want = 40 if R.thorough else 12
    N, n, TW, TH, TM = [sym(x) for x in ("N", "n", "TW", "TH", "TM")]

    def where(q):
        f = [g for g in P.byq[q] if g.get("body")][0]
        return "%s:%d" % (f["file"], f["line"])

    def target(s, tag=""):
        t = s.construct(T_, "target" + tag, [N, TW, TH, TM])
        return t, s.query(T_, "data_ptr_const", t, nparams=0)

    def points(shape, src):
        def pts(rng):
            v = {}
            for j, (S, W, H, M) in enumerate(shape):
                for x, hi in ((S, 2), (W, 3), (H, 3), (M, 2)):
                    if not is_num(x) and x not in v:
                        v[x] = rng.randint(1, hi)
            get = lambda x: int(x.a[0]) if is_num(x) else v[x]
            S, W, H, M = [get(x) for x in shape[min(src, len(shape) - 1)]]
            same = rng.random() < 0.4
            v[N] = rng.randint(1, 2)
            v[n] = rng.randint(0, v[N]) if rng.random() < 0.3 else rng.randint(0, v[N] - 1)
            v[TW], v[TH] = (W, H) if same else (max(1, W + rng.choice((-1, 0, 0, 1, 2))), max(1, H + rng.choice((-1, 0, 0, 1, 2))))
            v[TM] = M if rng.random() < 0.8 else rng.randint(1, 3)
            v[sym("s")] = rng.choice((0, 0, S - 1, S, S + 1))
            return v
        return pts

    # -- which stream ------------------------------------------------------
    def kinds():
        for name, f in (("compressed", ("cts", shapes(2))), ("short", ("float", [], None)), ("one", ("float", shapes(1), 1)), ("almost", ("float", shapes(1), MAGIC ^ 1)),
                        ("low half", ("float", shapes(1), 0xC24CC24C)), ("swapped", ("float", shapes(1), 0x4CC24CC24CC24CC2)), ("other half", ("float", shapes(1), MAGIC ^ (1 << 63)))):
            for path in (word("file"), lit("list:a;b;c"), lit("a;list:b;c;d;e"), lit("x.Tensor")):
                nm = text(path)
                s, D = session(P, {nm: f})
                p, cls = load(s, path)
                R.uses(*s.fns)
                R.uses(*sorted(s.E.inlined))
                c = ask(s, cls, p, "GetTensorCount")
                if c is not num(len(f[1])):
                    counted(c, num(len(f[1])), s, "file %s" % name)
        return True

    def guarded(f):
        def g():
            try:
                return f()
            except NeverReturns as e:
                return Verdict("different", "%s on files in order" % e, {"case": str(e)})
            except Bad as e:
                return Verdict("different", str(e.args[0]), {"case": e.args[1] if len(e.args) > 1 else None})
        return g
    R.guard("kind of a file", where(ST + "::FromFile"), "a file that starts with the magic number is read as compressed, every other as plain tensors", guarded(kinds))

    def missing():
        for path in (word("file"), lit("a.Tensor")):
            s, D = session(P, {lit("other"): ("float", shapes(1), 1)})
            try:
                p, cls = load(s, path)
            except NeverReturns:
                continue
            raise Bad("a stream is returned for a file that does not exist", render(path))
        return True
    R.guard("file that does not exist", where(ST + "::FromFile"), "is refused", guarded(missing))

    # -- sizes -------------------------------------------------------------
    def files(kind, c):
        nm = text(word("file"))
        return {nm: (kind, shapes(c)) if kind == "cts" else (kind, shapes(c), 1), text(word("other_file")): (kind, shapes(2, "b")) if kind == "cts" else (kind, shapes(2, "b"), 1)}

    def sizes(kind):
        for c in (0, 1, 2, 4):
            s, D = session(P, files(kind, c))
            p, cls = load(s, word("file"))
            R.uses(*s.fns)
            q = ask(s, cls, p, "GetTensorCount")
            if q is not num(c):
                counted(q, num(c), s, "%d tensors" % c)
            for i in list(range(c)) + [c, c + 1]:
                S, W, H, M = shapes(c)[i] if i < c else [ZERO] * 4
                have = [ask(s, cls, p, g, num(i)) for g in SIZE]
                if have != [W, H, M, S]:
                    v = values_agree(list(zip(have, [W, H, M, S])), points(shapes(max(c, 1)), 0), s.assumptions(), seed=R.seed, want=want)
                    if v.kind != "equal":
                        if v.witness is not None:
                            v.witness["tensor"] = "%d of %d" % (i, c)
                        return v
        return True

    def copies(kind):
        done = 0
        for c in (1, 2, 3):
            for i in range(c):
                s, D = session(P, files(kind, c))
                p, cls = load(s, word("file"))
                t, ptr = target(s)
                S, W, H, M = shapes(c)[i]
                pre = s.st.clone()
                nm = text(word("file"))
                r = s.run(s.method(cls, "CopySample", 4), this=p, args={0: num(i), 1: sym("s"), 2: el(t), 3: n}, cls=cls)
                R.uses(*s.fns)
                R.uses(*sorted(s.E.inlined))
                sp = spec_effects("stream_sample", [D.contents(nm, i), S, W, H, M, sym("s"), ptr, N, TW, TH, TM, n], pre)
                stale = [F]
                for e in r.effects:
                    if e.kind == "delete" and ptr_parts(e.d["ptr"])[0].op == "alloc":
                        b0 = ptr_parts(e.d["ptr"])[0]
                        stale += [and_(e.guard(), into(x, b0)) for k, x in s.st.env.items() if isinstance(x, Term) and k.op == "fld" and contains(k, lambda y: y is p)]
                v = values_agree([(ind(or_(*stale)), ZERO)], points(shapes(c), i), s.assumptions(), seed=R.seed, want=3 * want)
                if v.kind != "equal":
                    if v.kind == "different":
                        raise Bad("the stream keeps memory it has released", "tensor %d of %d" % (i, c))
                    return v
                gone = or_(*[and_(e.guard(), into(e.d["ptr"], ptr)) for e in r.effects if e.kind == "delete"])
                v = values_agree([(ind(gone), ZERO)], points(shapes(c), i), s.assumptions(), seed=R.seed, want=3 * want)
                if v.kind != "equal":
                    if v.kind == "different":
                        raise Bad("the memory of the target is released", "tensor %d of %d" % (i, c))
                    return v
                v = equiv(r.effects, sp.effects, [ptr], points(shapes(c), i), s.assumptions(), seed=R.seed, want=want, tries=2000, scalars=[(ind(to_bool(r.ret)), ind(to_bool(sp.ret)))])
                if v.kind != "equal":
                    if v.witness is not None:
                        v.witness["tensor"] = "%d of %d" % (i, c)
                    return v
                done += v.points
        return Verdict("equal", "identity test", points=done)

    def sequence(kind):
        """one copy after the other"""
        done = 0
        for order in ((0, 1), (1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 2)):
            s, D = session(P, files(kind, 3))
            p, cls = load(s, word("file"))
            ts = [target(s, str(k)) for k in range(len(order))]
            pre = s.st.clone()
            nm = text(word("file"))
            eff, spe, sc = [], [], []
            for k, i in enumerate(order):
                S, W, H, M = shapes(3)[i]
                sm = ZERO if k % 2 == 0 else sym("s")
                r = s.run(s.method(cls, "CopySample", 4), this=p, args={0: num(i), 1: sm, 2: el(ts[k][0]), 3: n}, cls=cls)
                sp = spec_effects("stream_sample", [D.contents(nm, i), S, W, H, M, sm, ts[k][1], N, TW, TH, TM, n], pre)
                eff += r.effects
                spe += sp.effects
                sc.append((ind(to_bool(r.ret)), ind(to_bool(sp.ret))))
            R.uses(*s.fns)

            def pts(rng):
                v = points(shapes(3), order[0])(rng)
                if rng.random() < 0.5:      # all have the target's size
                    for S, W, H, M in shapes(3):
                        v[W], v[H], v[M] = v[TW], v[TH], v[TM]
                return v
            v = equiv(eff, spe, [x[1] for x in ts], pts, s.assumptions(), seed=R.seed, want=want, tries=2000, scalars=sc)
            if v.kind != "equal":
                if v.witness is not None:
                    v.witness["order"] = order
                return v
            done += v.points
        return Verdict("equal", "identity test", points=done)

    def outside(kind):
        for c in (0, 1, 2):
            for i in (c, c + 1, c + 5):
                s, D = session(P, files(kind, c))
                p, cls = load(s, word("file"))
                t, ptr = target(s)
                r = s.run(s.method(cls, "CopySample", 4), this=p, args={0: num(i), 1: sym("s"), 2: el(t), 3: n}, cls=cls)
                if r.ret is not F:
                    if r.ret is not T:
                        raise Unknown("result %s" % show(r.ret)[:80])
                    raise Bad("a sample of tensor %d of %d is copied" % (i, c))
                if [e for e in r.effects if e.kind == "store" and e.d["lv"].op == "el"]:
                    raise Unknown("something is written for a tensor that does not exist")
        return True

    for kind, cls in (("float", "Conv::FloatTensorStream"), ("cts", "Conv::CompressedTensorStream")):
        nm = {"float": "plain", "cts": "compressed"}[kind]
        R.guard("%s file: number and sizes" % nm, where(cls + "::LoadFile"), "are those of the tensors in the file, zero behind the last one", guarded(lambda k=kind: sizes(k)))
        R.guard("%s file: copying a sample" % nm, where(cls + "::CopySample"), "the sample padded with zeros; refused without writing when it does not exist or fit", guarded(lambda k=kind: copies(k)))
        R.guard("%s file: several copies" % nm, where(cls + "::CopySample"), "a copy does not depend on earlier copies or change them", guarded(lambda k=kind: sequence(k)))
        R.guard("%s file: a tensor that does not exist" % nm, where(cls + "::CopySample"), "is refused", guarded(lambda k=kind: outside(k)))

    # -- lists of images ---------------------------------------------------
    IMG, LAB = lit("images.txt"), lit("labels.txt")

    def listing(rng, pairs, colors, dirs=("img", "lab/"), end=True, tail=""):
        """a list stream; pairs: (width, height, image maps, label maps, label fits)"""
        f, names = {}, []
        for j, (w, h, m, lm, fits) in enumerate(pairs):
            a, b = "i%d.png" % j, rng.choice(("l%d.png", "sub/l%d.jpg", "label %d.png")) % j
            names.append((a, b))
            full = [lit(d + ("" if d.endswith("/") else "/") + x) for d, x in zip(dirs, (a, b))]
            f[full[0]] = ("image", (w, h, num(m)))
            f[full[1]] = ("image", ({0: w, 1: w, 2: add(w, ONE)}[fits], {0: h, 1: add(h, ONE), 2: h}[fits], num(lm)))
        for k, nm in enumerate((IMG, LAB)):
            t = "\n".join(x[k] for x in names) + ("\n" if end else "")
            if tail:
                t += ("" if end else "\n") + tail
            f[nm] = ("text", lit(t))
        return f, lit("list:images.txt;%s;labels.txt;%s" % dirs)

    def size_of(j):
        return sym("W%d" % j), sym("H%d" % j)

    def list_sizes():
        for k in range(24 if R.thorough else 10):
            rng = random.Random(R.seed * 100 + k)
            colors = [rng.randint(0, 0xffffff) for _ in range(rng.randint(1, 4))]
            pairs = [size_of(j) + (rng.choice((1, 3)), rng.choice((1, 3)), rng.choice((0, 0, 0, 1, 2))) for j in range(rng.randint(0, 3))]
            dirs = (rng.choice(("img", "img/", "/a/b", "./")), rng.choice(("lab", "lab/", "/a/c d/")))
            f, path = listing(rng, pairs, colors, dirs, end=rng.random() < 0.7, tail=rng.choice(("", "", "x\n", "\ni0.png\n")))
            what = "%s with %s and %s, label images %s" % (render(path), repr(render(f[IMG][1])), repr(render(f[LAB][1])), ["fit" if p[4] == 0 else "have another size" for p in pairs])
            s, D = session(P, f)
            p, cls = load(s, path, colors)
            R.uses(*s.fns)
            R.uses(*sorted(s.E.inlined))
            wanted = []
            for w, h, m, lm, fits in pairs:
                if fits == 0:
                    wanted += [(w, h, num(m), ONE), (w, h, num(len(colors)), ONE)]
            c = ask(s, cls, p, "GetTensorCount")
            if c is not num(len(wanted)):
                if not is_num(c):
                    raise Unknown("number of tensors %s" % show(c)[:60])
                raise Bad("%s tensors, %d described" % (show(c), len(wanted)), what)
            for i in list(range(len(wanted))) + [len(wanted), len(wanted) + 3]:
                for g, x in zip(SIZE, wanted[i] if i < len(wanted) else [ZERO] * 4):
                    y = ask(s, cls, p, g, num(i))
                    if y is not x:
                        if contains(y, lambda z: z.op in ("unk", "call", "phi", "ite")):
                            raise Unknown("%s %s" % (g, show(y)[:60]))
                        raise Bad("%s(%d) = %s, not %s" % (g, i, show(y)[:60], show(x)), what)
        return True

    COLORS = [(0xff0000,), (0x000000,), (0x12ff00ff,), (0xff0000, 0x00ff00), (0, 0xffffff, 0xff00ff80), (0xff0000, 0x00ff00, 0xff0000), (0x808080, 0, 0xffffff, 0x0080ff)]

    def list_copies(part):
        done = 0
        for ci, colors in enumerate(COLORS if part else COLORS[2:5]):
            if part == 1 and len(colors) != 1 or part == 2 and len(colors) == 1:
                continue
            for m in (1, 3):
                for j in (0, 1):
                    rng = random.Random(R.seed * 50 + ci)
                    pairs = [size_of(0) + (m, m, 0), size_of(1) + (m, m, 0)]
                    f, path = listing(rng, pairs, colors)
                    s, D = session(P, f)
                    p, cls = load(s, path, colors)
                    t, ptr = target(s)
                    pre = s.st.clone()
                    w, h = size_of(j)
                    lab = [nm for nm in f if f[nm][0] == "image" and render(nm).startswith("lab/" if part else "img/") and str(j) in render(nm)][0]
                    r = s.run(s.method(cls, "CopySample", 4), this=p, args={0: num(2 * j + (1 if part else 0)), 1: sym("s"), 2: el(t), 3: n}, cls=cls)
                    R.uses(*s.fns)
                    R.uses(*sorted(s.E.inlined))
                    px, no = mk("purefn", "any pixel"), D.number(lab)
                    if part == 0:
                        sp = spec_effects("copy_image", [px, no, w, h, num(m), ptr, N, TW, TH, TM, n, sym("s")], pre)
                    elif part == 1:
                        c = colors[0]
                        sp = spec_effects("copy_binary", [px, no, w, h, num(m)] + [num(b) for b in ((c >> 16) & 255, (c >> 8) & 255, c & 255)] + [ptr, N, TW, TH, TM, n, sym("s")], pre)
                    else:
                        sps = [spec_effects("copy_class", [px, no, w, h, num(m), num(k), num(c >> 16 & 255), num(c >> 8 & 255), num(c & 255), num(len(colors)), ptr, N, TW, TH, TM, n, sym("s")], pre)
                               for k, c in enumerate(colors)]
                        sp = sps[0]
                        sp.effects = [e for x in sps for e in x.effects]
                    M = num(len(colors)) if part else num(m)
                    shape = [(ONE, w, h, M)]
                    v = equiv(r.effects, sp.effects, [ptr], points(shape, 0), s.assumptions(), seed=R.seed, want=want, tries=2000, scalars=[(ind(to_bool(r.ret)), ind(to_bool(sp.ret)))])
                    if v.kind != "equal":
                        if v.witness is not None:
                            v.witness["colours"] = ["%06x" % c for c in colors]
                            v.witness["channels"] = m
                        return v
                    done += v.points
        return Verdict("equal", "identity test", points=done)

    def list_outside():
        for c in (0, 1, 2):
            f, path = listing(random.Random(c), [size_of(j) + (3, 3, 0) for j in range(c)], (0, 1))
            for i in (2 * c, 2 * c + 1, 2 * c + 4):
                s, D = session(P, f)
                p, cls = load(s, path, (0, 1))
                t, ptr = target(s)
                r = s.run(s.method(cls, "CopySample", 4), this=p, args={0: num(i), 1: sym("s"), 2: el(t), 3: n}, cls=cls)
                if r.ret is not F:
                    if r.ret is not T:
                        raise Unknown("result %s" % show(r.ret)[:80])
                    raise Bad("a sample of tensor %d of %d is copied" % (i, 2 * c))
        return True

    def list_missing():
        for gone in (IMG, LAB):
            f, path = listing(random.Random(1), [size_of(0) + (3, 3, 0)], (0, 1))
            del f[gone]
            s, D = session(P, f)
            try:
                load(s, path, (0, 1))
            except NeverReturns:
                continue
            raise Bad("a stream is returned although %s does not exist" % render(gone), render(path))
        return True
    L = "Conv::ListTensorStream"
    R.guard("list of images: number and sizes", where(L + "::LoadFiles"), "an image and a label for every pair of lines whose images have one size, labels with one map per class", guarded(list_sizes))
    R.guard("list of images: missing list", where(L + "::LoadFiles"), "is refused", guarded(list_missing))
    R.guard("list of images: copying an image", where(L + "::CopySample"), "its values, padded with zeros; refused when it does not exist or fit", guarded(lambda: list_copies(0)))
    R.guard("list of images: label of one class", where(L + "::CopySample"), "the distance of the colour from the class's colour, from 1 to -1", guarded(lambda: list_copies(1)))
    R.guard("list of images: label of several classes", where(L + "::CopySample"), "one in the maps of the classes that have the colour, zero in all others", guarded(lambda: list_copies(2)))
    R.guard("list of images: a tensor that does not exist", where(L + "::CopySample"), "is refused", guarded(list_outside))

