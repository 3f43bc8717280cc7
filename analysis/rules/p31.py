"""What a data set of image patches hands out for every sample."""
from terms import *
from session import Session
from program import program, AnalysisError, NeverReturns
from compare import equiv, values_agree, Verdict, Unknown
from layercases import spec_effects

MIN = 6
D = "Conv::TensorStreamPatchDataset"
T_ = "Conv::Tensor"
IS = "std::basic_istream<char>"
C = 3
PW, PH, DM = sym("pw"), sym("ph"), sym("DM")


class Files:
    """two byte streams holding the given numbers of tensors of unknown size"""
    def __init__(self, s, counts, sizes=None):
        self.s, self.counts, self.sizes = s, counts, sizes
        self.lv = [mk("gvar", "training_file"), mk("gvar", "testing_file")]
        self.fd = [sym("training_fd"), sym("testing_fd")]
        for l in self.lv:
            s.st.env[fld(l, "at")] = ZERO
            s.st.env[fld(l, "end")] = F
        h = s.E.hooks
        h[T_ + "::Deserialize"] = self.read
        h["std::basic_ios<char>::eof"] = self.eof
        h["std::basic_istream<char>::peek"] = self.peek
        h["std::basic_ios<char>::clear"] = self.clear
        h["std::basic_istream<char>::seekg"] = self.seek

    def which(self, p):
        if p.op == "addr":
            p = p.a[0]
        if p not in self.lv:
            raise Unknown("stream %s" % show(p)[:60])
        return self.lv.index(p)

    def at(self, k, st):
        v = self.s.E.load(fld(self.lv[k], "at"), st)
        if not is_num(v):
            raise Unknown("position in a file %s" % show(v)[:80])
        return int(v.a[0])

    def eof(self, E, fn, obj, args, n, st):
        return E.load(fld(self.lv[self.which(obj)], "end"), st)

    def peek(self, E, fn, obj, args, n, st):
        k = self.which(obj)
        if self.at(k, st) >= self.counts[k]:
            st.env[fld(self.lv[k], "end")] = T
            return num(-1)
        return ZERO

    def clear(self, E, fn, obj, args, n, st):
        st.env[fld(self.lv[self.which(obj)], "end")] = F
        return ZERO

    def seek(self, E, fn, obj, args, n, st):
        k = self.which(obj)
        v = [E.ev(x, st) if isinstance(x, dict) else x for x in args]
        if v[0] is not ZERO or len(v) > 1 and v[1] is not ZERO:
            raise Unknown("seeks to %s" % show(v[0]))
        st.env[fld(self.lv[k], "at")] = ZERO
        return obj

    @staticmethod
    def shape(k, i, sizes=None):
        """width, height, maps and contents of tensor i of stream k"""
        w, h = sym("w%d_%d" % (k, i // 2)), sym("h%d_%d" % (k, i // 2))
        if sizes is not None:
            w, h = [num(x) for x in sizes[k][i // 2]]
        return w, h, num(C) if i % 2 else DM if sizes is None else num(2), addr(mk("gvar", ("label" if i % 2 else "image") + "%d_%d" % (k, i // 2)))

    def read(self, E, fn, obj, args, n, st):
        if E.loops:
            raise Unknown("a tensor is read in a loop that is not unrolled")
        v = [E.lv(x, st) if isinstance(x, dict) and i == 0 else E.ev(x, st) if isinstance(x, dict) else x for i, x in enumerate(args)]
        k = self.which(v[0])
        i = self.at(k, st)
        f = [g for g in E.prog.byq[T_ + "::Resize"] if len(g["params"]) == 7][0]
        if i >= self.counts[k]:
            st.env[fld(self.lv[k], "end")] = T
            E.call_fn(f, obj, [ZERO, ZERO, ZERO, ZERO, NULL, F, F], n, st)
            return ZERO
        st.env[fld(self.lv[k], "at")] = num(i + 1)
        w, h, m, p = self.shape(k, i, self.sizes)
        head = v[1] if len(v) > 1 else F
        if head not in (T, F):
            raise Unknown("whether the contents are read")
        if len(v) > 3 and v[2] is T:
            E.emit("mapped", st, n, stream=num(k), fd=v[3])
        E.call_fn(f, obj, [ONE, w, h, m, p if head is F else addr(mk("gvar", "header only")), F, T], n, st)
        return ZERO


def dataset(prog, counts, sizes=None, patch=(PW, PH)):
    s = Session(prog)
    s.E.concrete = True
    X = Files(s, counts, sizes)
    names, colors = s.vec("names", [mk("str", "c%d" % i) for i in range(C)]), s.vec("colors", [sym("color%d" % i) for i in range(C)])
    cw = s.vec("class_weights", [sym("cw%d" % i) for i in range(C)])
    old, NONZERO[0] = NONZERO[0], lambda p: bool(p) and all(c > 0 for c in p.values())
    try:
        d = make(s, X, names, colors, cw, patch)
    finally:
        NONZERO[0] = old
    return s, d, X


def make(s, X, names, colors, cw, patch):
    return s.construct(D, "dataset", [X.lv[0], X.lv[1], num(C), mk("val", names), mk("val", colors), mk("val", cw)] + list(patch) + [mk("purefn", "err")] + X.fd)


def inner(k, j):
    w, h, _, _ = Files.shape(k, 2 * j)
    return sub(w, sub(PW, ONE)), sub(h, sub(PH, ONE))


def patches(k, n):
    r = ZERO
    for j in range(n):
        a, b = inner(k, j)
        r = add(r, mul(a, b))
    return r


def weights_of(s, d):
    """where the data set keeps the weights of the classes"""
    x = s.fork()
    r = x.run(x.method(D, "GetClassWeights"), this=d).ret
    if r.op != "val":
        raise Unknown("weights of the classes: %s" % show(r)[:80])
    return addr(el(mk("vdata", s.E.vec(r.a[0], x.st)), ZERO))


def resolved(r):
    """sizes and buffers of all tensors that take part are known"""
    for e in r.effects:
        for t in e.d.values():
            if isinstance(t, Term) and contains(t, lambda x: x.op in ("ld", "ldl") and x.a[0].op == "fld" and x.a[0].a[0].op == "el"):
                return t if not contains(t, lambda x: x.op in ("unk", "call", "phi", "mu", "jmu")) else None
    return True


def determined(r):
    if resolved(r) is not True:
        raise Unknown("the image a sample comes from is not determined")


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["data sets of at most four images; every image is at least as large as a patch and its label has its size",
                      "sizes are exact integers", "the tensors that receive a sample are distinct and own their memory"]
    want = 60 if R.thorough else 16
    SETS = [(1, 1), (2, 1), (1, 2), (0, 2), (3, 0)]

    def where(f):
        return "%s:%d" % (f["file"], f["line"])
    N, n, row, col = [sym(x) for x in ("N", "n", "row", "col")]

    def points(a, b, k=None, j=None):
        def pts(rng):
            v = {DM: rng.randint(1, 2), PW: rng.randint(1, 3), PH: rng.randint(1, 3), N: rng.randint(1, 2)}
            for kk, c in ((0, a), (1, b)):
                for jj in range(c):
                    w, h, _, _ = Files.shape(kk, 2 * jj)
                    v[w], v[h] = v[PW] + rng.choice((0, 0, 1, 2, 3)), v[PH] + rng.choice((0, 0, 1, 2, 3))
            v[n] = rng.randint(0, v[N] - 1)
            if k is not None:
                w, h, _, _ = Files.shape(k, 2 * j)
                v[col], v[row] = rng.randint(0, v[w] - v[PW]), rng.randint(0, v[h] - v[PH])
            return v
        return pts

    def counts():
        f = "the patches of all images of a stream are its samples"
        for a, b in SETS:
            s, d, X = dataset(prog, (2 * a, 2 * b))
            R.uses(*s.fns)
            q = lambda g: s.query(D, g, d)
            v = values_agree([(q("GetTrainingSamples"), patches(0, a)), (q("GetTestingSamples"), patches(1, b)),
                              (ind(to_bool(q("SupportsTesting"))), num(1 if b else 0)), (q("GetWidth"), PW), (q("GetHeight"), PH),
                              (q("GetInputMaps"), DM), (q("GetLabelMaps"), num(C)), (q("GetClasses"), num(C))], points(a, b), s.assumptions(), seed=R.seed, want=want)
            if v.kind != "equal":
                return v
        return True
    f = [g for g in prog.byq[D + "::TensorStreamPatchDataset"] if g.get("body")][0]
    R.guard("number of samples", where(f), "the patches of all images of a stream are its samples", counts)

    def sample(k, which):
        f = prog.byq[D + "::Get%sSample" % which][0]

        def g():
            done = 0
            for a, b in SETS:
                for j in range((a, b)[k]):
                    s, d, X = dataset(prog, (2 * a, 2 * b))
                    ts = [s.construct(T_, x, y) for x, y in (("data", [N, PW, PH, DM]), ("label", [N, ONE, ONE, num(C)]), ("helper", [N, ONE, ONE, num(2)]), ("weight", [N, ONE, ONE, ONE]))]
                    ps = [s.query(T_, "data_ptr_const", t, nparams=0) for t in ts]
                    w, h, _, image = Files.shape(k, 2 * j)
                    label = Files.shape(k, 2 * j + 1)[3]
                    iw, ih = inner(k, j)
                    index = add(patches(k, j), mul(row, iw), col)
                    pre = s.st.clone()
                    # the patch lies in image j: every comparison with a number of preceding patches is known
                    total = patches(0, a)
                    for jj in range(a + b):
                        upto = patches(0, jj + 1) if jj < a else add(total, patches(1, jj + 1 - a))
                        place = index if k == 0 else add(total, index)
                        c = ge0(sub(place, upto))
                        s.E.assume(s.st, c if jj < (j if k == 0 else a + j) else not_(c))
                    s.E.assume(s.st, gt0(sub(patches(k, (a, b)[k]), index)))
                    r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [n, index])), cls=D)
                    R.uses(*s.fns)
                    R.uses(*sorted(s.E.inlined))
                    cw = weights_of(s, d)
                    sp = spec_effects("patch_sample", [image, label, mk("purefn", "err"), n] + ps + [cw, DM, num(C), w, h, PW, PH, col, row], pre)
                    determined(r)
                    v = equiv(r.effects, sp.effects, ps, points(a, b, k, j), s.assumptions(), seed=R.seed, want=want, tries=3000,
                              scalars=[(ind(to_bool(r.ret)), ONE)], styles=(None, "ties", "negative"))
                    if v.kind != "equal":
                        if v.witness is not None:
                            v.witness["images"] = {"training": a, "testing": b, "sample from": j}
                        return v
                    done += v.points
            return Verdict("equal", "identity test", points=done)
        R.guard("a %s sample" % which.lower(), where(f), "patch, centre label, position and weight come from one place of one image of that stream", g)

        def bounded():
            done = 0
            for sizes, patch in ([[(3, 2), (4, 3)], [(5, 2)]], (2, 2)), ([[(3, 3)], [(3, 3), (4, 3)]], (3, 1)), ([[], [(2, 3), (3, 2)]], (1, 2)), ([[(3, 3), (2, 4)], []], (2, 3)):
                for j, (w, h) in enumerate(sizes[k]):
                    before = sum((x - patch[0] + 1) * (y - patch[1] + 1) for x, y in sizes[k][:j])
                    iw = w - patch[0] + 1
                    for i in range(iw * (h - patch[1] + 1)):
                        s, d, X = dataset(prog, (2 * len(sizes[0]), 2 * len(sizes[1])), sizes, [num(x) for x in patch])
                        pw, ph = [num(x) for x in patch]
                        ts = [s.construct(T_, x, y) for x, y in (("data", [num(2), pw, ph, num(2)]), ("label", [num(2), ONE, ONE, num(C)]), ("helper", [num(2), ONE, ONE, num(2)]), ("weight", [num(2), ONE, ONE, ONE]))]
                        ps = [s.query(T_, "data_ptr_const", t, nparams=0) for t in ts]
                        image, label = [Files.shape(k, 2 * j + x, sizes)[3] for x in (0, 1)]
                        pre = s.st.clone()
                        r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [ONE, num(before + i)])), cls=D)
                        R.uses(*s.fns)
                        bad = resolved(r)
                        if bad is None:
                            determined(r)
                        if bad is not True:
                            return Verdict("different", "with every size known the sample depends on memory outside of what the data set stored",
                                           {"images": {"training": sizes[0], "testing": sizes[1], "patch": patch, "sample": before + i}, "value": show(bad)[:200]})
                        sp = spec_effects("patch_sample", [image, label, mk("purefn", "err"), ONE] + ps + [weights_of(s, d), num(2), num(C), num(w), num(h), pw, ph, num(i % iw), num(i // iw)], pre)
                        v = equiv(r.effects, sp.effects, ps, lambda rng: {}, s.assumptions(), seed=R.seed, want=3, scalars=[(ind(to_bool(r.ret)), ONE)], styles=(None, "ties", "negative"))
                        if v.kind != "equal":
                            if v.witness is not None:
                                v.witness["images"] = {"training": sizes[0], "testing": sizes[1], "patch": patch, "sample": before + i}
                            return v
                        done += v.points
            return Verdict("equal", "identity test", points=done)
        R.guard("every %s sample of small data sets" % which.lower(), where(f), "patch, centre label, position and weight come from one place of one image of that stream", bounded)

        def outside():
            left = None
            for sizes, patch in ([[(3, 2), (4, 3)], [(5, 2)]], (2, 2)), ([[], [(2, 3), (3, 2)]], (1, 2)), ([[(3, 3), (2, 4)], []], (2, 3)):
                total = sum((x - patch[0] + 1) * (y - patch[1] + 1) for x, y in sizes[k])
                for i in (0, 1, 2):
                    s, d, X = dataset(prog, (2 * len(sizes[0]), 2 * len(sizes[1])), sizes, [num(x) for x in patch])
                    pw, ph = [num(x) for x in patch]
                    ts = [s.construct(T_, x, y) for x, y in (("data", [ONE, pw, ph, num(2)]), ("label", [ONE, ONE, ONE, num(C)]), ("helper", [ONE, ONE, ONE, num(2)]), ("weight", [ONE, ONE, ONE, ONE]))]
                    r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [ZERO, num(total + i)])), cls=D)
                    if r.ret is not F:
                        if r.ret is not T and contains(r.ret, lambda x: x.op in ("unk", "call", "phi", "mu", "jmu")):
                            raise Unknown("result %s" % show(r.ret)[:80])
                        return Verdict("different", None, {"images": {"training": sizes[0], "testing": sizes[1], "patch": patch}, "samples": total, "accepted": total + i})
            for a, b in SETS:
                s, d, X = dataset(prog, (2 * a, 2 * b))
                ts = [s.construct(T_, x, y) for x, y in (("data", [N, PW, PH, DM]), ("label", [N, ONE, ONE, num(C)]), ("helper", [N, ONE, ONE, num(2)]), ("weight", [N, ONE, ONE, ONE]))]
                s.E.assume(s.st, ge0(sub(sym("index"), patches(k, (a, b)[k]))))
                r = s.run(s.method(D, "Get%sSample" % which, 6), this=d, args=dict(enumerate([el(t) for t in ts] + [n, sym("index")])), cls=D)

                def pts(rng, a=a, b=b):
                    v = points(a, b)(rng)
                    v[sym("index")] = sum((v[Files.shape(k, 2 * j)[0]] - v[PW] + 1) * (v[Files.shape(k, 2 * j)[1]] - v[PH] + 1) for j in range((a, b)[k])) + rng.randint(0, 2)
                    return v
                v = values_agree([(ind(to_bool(r.ret)), ZERO)], pts, s.assumptions(), seed=R.seed, want=want)
                if v.kind == "different":
                    return v
                if v.kind != "equal":
                    left = v
                elif [e for e in r.effects if e.kind == "store" and e.d["lv"].op == "el"]:
                    raise Unknown("something is written for a sample that does not exist")
            return left or True
        R.guard("a %s sample that does not exist" % which.lower(), where(f), "is refused", outside)
    sample(0, "Training")
    sample(1, "Testing")
