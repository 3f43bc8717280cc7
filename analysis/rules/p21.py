"""What a data set of whole images hands out for every sample."""
from terms import *
from session import Session, nonempty_hook
from program import program, AnalysisError, NeverReturns
from compare import equiv, values_agree, Verdict, Unknown
from layercases import spec_effects

MIN = 6
D = "Conv::TensorStreamDataset"
ST = "Conv::TensorStream"
T_ = "Conv::Tensor"
SIZES = ("GetWidth", "GetHeight", "GetMaps", "GetSamples")


def halves(t):
    """t = 2q + r"""
    p = as_poly(t)
    if any(c % 2 for m, c in p.items() if m != ()):
        return idiv(t, num(2)), imod(t, num(2))
    r = int(p.get((), 0)) % 2
    return idiv(sub(t, num(r)), num(2)), num(r)


class Streams:
    """two abstract tensor streams, the training stream and the testing stream"""
    ends = (addr(mk("gvar", "training_stream")), addr(mk("gvar", "testing_stream")))

    def __init__(self, s):
        self.s = s
        self.ptr = list(self.ends)
        h = s.E.hooks
        for w in SIZES:
            h[ST + "::" + w] = self.get(w)
        h[ST + "::GetTensorCount"] = self.counter
        h[ST + "::CopySample"] = self.copy

    @staticmethod
    def args(E, args, st):
        return [E.ev(x, st) if isinstance(x, dict) else x for x in args]

    @staticmethod
    def size(w, stream, i):
        q, r = halves(i)
        if w in ("GetWidth", "GetHeight"):      # an image and its label have the same size
            return mk("call", "pure", "size " + w, stream, q)
        return mk("call", "pure", "size " + w, stream, q, r)

    def get(self, w):
        def h(E, fn, obj, args, n, st):
            return self.size(w, obj, self.args(E, args, st)[0])
        return h

    @staticmethod
    def count(obj):
        return mk("call", "count", obj)

    def counter(self, E, fn, obj, args, n, st):
        return self.count(obj)

    @staticmethod
    def copied(stream, i, f):
        return mk("tb", mk("call", "copied", stream, i, f))

    def copy(self, E, fn, obj, args, n, st):
        v = [E.lv(x, st) if isinstance(x, dict) and i == 2 else E.ev(x, st) if isinstance(x, dict) else x for i, x in enumerate(args)]
        t = v[2].a[0] if v[2].op == "addr" else v[2]
        get = lambda f: E.load(fld(t, f), st)
        per = mul(mul(get("width_"), get("height_")), get("maps_"))
        f = program("spec").one("spec::stream_copy")
        E.call_fn(f, None, [mk("purefn", "pix"), obj, v[0], v[1], get("data_ptr_"), per, v[3]], n, st)
        return self.copied(obj, v[0], v[1])


def dataset(prog, classes=3):
    s = Session(prog, hooks={T_ + "::Resize": lambda E, fn, obj, args, n, st: ZERO})
    X = Streams(s)
    names, colors = s.vec("names", [mk("str", "c%d" % i) for i in range(classes)]), s.vec("colors", [sym("color%d" % i) for i in range(classes)])
    cw = s.vec("class_weights", [sym("cw%d" % i) for i in range(classes)])
    d = s.construct(D, "dataset", X.ptr + [num(classes), mk("val", names), mk("val", colors), mk("val", cw), mk("purefn", "err")])
    s.E.hooks["Conv::Tensor::Resize"] = nonempty_hook(s)
    return s, d, X


def weights_of(s, d):
    """where the data set keeps the weights of the classes"""
    x = s.fork()
    r = x.run(x.method(D, "GetClassWeights"), this=d).ret
    if r.op != "val":
        raise Unknown("weights of the classes: %s" % show(r)[:80])
    return addr(el(mk("vdata", s.E.vec(r.a[0], x.st)), ZERO))


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["an image and its label have the same width and height, no larger than the common size",
                      "sizes are exact integers", "the tensors that receive a sample are distinct and own their memory"]
    want = 60 if R.thorough else 16

    def where(f):
        return "%s:%d" % (f["file"], f["line"])
    N, DM, n, i = [sym(x) for x in ("N", "DM", "n", "i")]
    C = 3

    def sample(which):
        k = ("Training", "Testing").index(which)

        def g():
            s, d, X = dataset(prog)
            R.uses(*s.fns)
            me = X.ptr[k]
            W, H = s.query(D, "GetWidth", d), s.query(D, "GetHeight", d)
            cut, memo = {W: sym("W"), H: sym("H")}, {}
            for q, v in list(s.st.env.items()):
                if isinstance(v, Term):
                    s.st.env[q] = subst(v, cut, memo)
            W, H = cut[W], cut[H]
            ts = [s.construct(T_, x, [N, W, H, m]) for x, m in (("data", DM), ("label", num(C)), ("helper", num(2)), ("weight", ONE))]
            ps = [s.query(T_, "data_ptr_const", t, nparams=0) for t in ts]
            w, h = X.size("GetWidth", me, mul(num(2), i)), X.size("GetHeight", me, mul(num(2), i))
            pre = s.st.clone()
            s.assume(gt0(sub(idiv(X.count(me), num(2)), i)))
            r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [n, i])), cls=D)
            R.uses(*s.fns)
            R.uses(*sorted(s.E.inlined))
            cw = weights_of(s, d)
            sp = spec_effects("image_sample", [mk("purefn", "pix"), mk("purefn", "err"), me, i, n] + ps + [cw, DM, num(C), W, H, w, h], pre)
            ok = and_(*[X.copied(me, add(mul(num(2), i), num(j)), ZERO) for j in (0, 1)])

            def pts(rng):
                a = {N: rng.randint(1, 2), DM: rng.randint(1, 2), W: rng.randint(1, 4), H: rng.randint(1, 4)}
                a[n] = rng.randint(0, a[N] - 1)
                for q in X.ptr:
                    a[X.count(q)] = 2 * rng.randint(0, 2)
                a[i] = rng.randint(0, max(0, a[X.count(me)] // 2 - 1))
                for q in (w, h):
                    a[q] = rng.randint(1, a[W if q is w else H])
                for j in (0, 1):
                    a[mk("call", "copied", me, add(mul(num(2), i), num(j)), ZERO)] = rng.choice((0, 1, 1))
                return a
            return equiv(r.effects, sp.effects, ps, pts, s.assumptions(), seed=R.seed, want=want, tries=2000,
                         scalars=[(ind(to_bool(r.ret)), ind(ok))], styles=(None, "ties", "negative"))
        f = prog.byq[D + "::Get%sSample" % which][0]
        R.guard("a %s sample" % which.lower(), where(f), "image and label come from the stream, positions and weights from the image's own size, padding is zero", g)

        def outside():
            s, d, X = dataset(prog)
            me = X.ptr[k]
            ts = [s.construct(T_, x, [N, sym("W"), sym("H"), m]) for x, m in (("data", DM), ("label", num(C)), ("helper", num(2)), ("weight", ONE))]
            s.E.assume(s.st, ge0(sub(i, idiv(X.count(me), num(2)))))
            r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [n, i])), cls=D)
            def pts(rng):
                a = {X.count(q): 2 * rng.randint(0, 2) for q in X.ptr}
                a[i] = a[X.count(me)] // 2 + rng.randint(0, 2)
                return a
            v = values_agree([(ind(to_bool(r.ret)), ZERO)], pts, s.assumptions(), seed=R.seed, want=want)
            if v.kind == "equal" and [e for e in r.effects if e.kind == "store" and e.d["lv"].op == "el"]:
                raise Unknown("something is written for a sample that does not exist")
            return v
        R.guard("a %s sample that does not exist" % which.lower(), where(f), "is refused", outside)
    f = [g for g in prog.byq[D + "::TensorStreamDataset"] if g.get("body")][0]

    def counts(rng):
        return {Streams.count(q): rng.randint(0, 4) for q in Streams.ends}

    def even(rng):
        return {Streams.count(q): 2 * rng.randint(0, 3) for q in Streams.ends}

    def some(rng):
        while True:
            a = even(rng)
            if any(a.values()):
                return a

    def made():
        s, d, X = dataset(prog)
        R.uses(*s.fns)
        return s, d, X

    def refused():
        s, d, X = made()
        ok = ind(and_(*s.assumptions()))
        good = ind(and_(*[eq0(imod(X.count(q), num(2))) for q in X.ptr]))
        return values_agree([(ok, good)], counts, seed=R.seed, want=40)
    R.guard("alternating images and labels", where(f), "a stream with an odd number of tensors is refused, every other is accepted", refused)

    def number():
        s, d, X = made()
        q = lambda g: s.query(D, g, d)
        half = [idiv(X.count(p), num(2)) for p in X.ptr]
        return values_agree([(q("GetTrainingSamples"), half[0]), (q("GetTestingSamples"), half[1]), (ind(to_bool(q("SupportsTesting"))), ind(gt0(half[1])))], even, seed=R.seed, want=20)
    R.guard("number of samples", where(f), "one sample per image", number)

    def size(g):
        def h():
            s, d, X = made()
            half = [idiv(X.count(p), num(2)) for p in X.ptr]
            sp = spec_effects("common_size", [mk("purefn", "size " + g), X.ptr[0], half[0], X.ptr[1], half[1]], s.st)
            return values_agree([(s.query(D, g, d), sp.ret)], even, seed=R.seed, want=want)
        return h
    for g in ("GetWidth", "GetHeight"):
        R.guard("common size, " + g, where(f), "the largest image of both streams, rounded up to a multiple of 64", size(g))

    def maps():
        s, d, X = made()
        out = []
        for g, i in (("GetInputMaps", 0), ("GetLabelMaps", 1)):
            a, b = [X.size("GetMaps", p, num(i)) for p in X.ptr]
            out.append((s.query(D, g, d), ite(gt0(X.count(X.ptr[0])), a, b)))
        return values_agree(out, some, seed=R.seed, want=20)
    R.guard("number of maps", where(f), "those of the first image and the first label", maps)

    def classes():
        for c in (1, 2, 5):
            s, d, X = dataset(prog, c)
            if s.query(D, "GetClasses", d) is not num(c):
                return Verdict("different", "number of classes", {"classes": c, "reported": show(s.query(D, "GetClasses", d))})
            for g, v in (("GetClassNames", [mk("str", "c%d" % i) for i in range(c)]), ("GetClassColors", [sym("color%d" % i) for i in range(c)]),
                         ("GetClassWeights", [sym("cw%d" % i) for i in range(c)])):
                x = s.fork()
                r = x.run(x.method(D, g), this=d).ret
                if r.op != "val":
                    raise Unknown("%s returns %s" % (g, show(r)[:60]))
                have = x.vec_items(r.a[0])
                if have != v:
                    return Verdict("different", "wrong %s" % g, {"given": [show(y) for y in v], "reported": have and [show(y) for y in have]})
        return True
    R.guard("class information", where(f), "names, colours and weights are those given", classes)
    sample("Training")
    sample("Testing")


