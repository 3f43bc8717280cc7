"""Which samples the data set input layer feeds into the network, and with which weights."""
from fractions import Fraction
from terms import *
from session import Session
from program import program, AnalysisError, NeverReturns
from compare import values_agree, Verdict, Unknown

MIN = 6
L = "Conv::DatasetInputLayer"
DS = "Conv::Dataset"
C_, T_ = "Conv::CombinedTensor", "Conv::Tensor"
DM, LM, W, H = sym("DM"), sym("LM"), sym("W"), sym("H")


class Bad(Exception):
    def __init__(self, what, witness=None):
        super().__init__(what)
        self.what, self.witness = what, witness or {}


class Feed:
    """an input layer on an abstract data set"""
    def __init__(self, prog, train, test, batch, fcn, size=None, p=sym("p"), seed=sym("seed"), maps=(1, 2), fail=None):
        self.train, self.test, self.batch, self.fcn, self.size, self.maps, self.fail = train, test, batch, fcn, size, maps, fail
        s = self.s = Session(prog)
        s.E.concrete = True
        h = s.E.hooks
        E = {e: num(i) for i, e in enumerate(("FCN", "PATCH"))}
        w, hh = [num(x) for x in size] if size else (W, H)
        for g, v in (("GetMethod", E["FCN" if fcn else "PATCH"]), ("GetWidth", w), ("GetHeight", hh), ("GetTrainingSamples", num(train)), ("GetTestingSamples", num(test)),
                     ("GetInputMaps", DM if size is None else num(maps[0])), ("GetLabelMaps", LM if size is None else num(maps[1])), ("SupportsTesting", T if test else F)):
            h[DS + "::" + g] = (lambda v: lambda E, fn, obj, args, n, st: v)(v)
        h[DS + "::GetTrainingSample"] = self.sample(False)
        h[DS + "::GetTestingSample"] = self.sample(True)
        h["std::shuffle"] = self.shuffle
        h["std::uniform_real_distribution<float>::operator()"] = self.draw
        self.draws, self.shuffles, self.taken = 0, [], []
        self.ds = s.obj("dataset")
        s.E.dyn[self.ds] = DS
        self.l = s.construct(L, "layer", [el(self.ds), num(batch), p, seed])
        self.testing = False

    def once(self, E, st, what):
        if E.loops or [c for c in st.pc if c is not T]:
            raise Unknown("%s depends on something the data set does not determine" % what)

    def draw(self, E, fn, obj, args, n, st):
        self.once(E, st, "a random number")
        self.draws += 1
        return sym("draw%d" % (self.draws - 1))

    def shuffle(self, E, fn, obj, args, n, st):
        self.once(E, st, "a shuffle")
        a, b = [E.ev(x, st) if isinstance(x, dict) else x for x in args[:2]]
        a, b = el(a), el(b)
        if a.op != "el" or b.op != "el" or a.a[0] is not b.a[0] or not is_num(a.a[1]) or not is_num(b.a[1]):
            raise Unknown("range that is shuffled: %s, %s" % (show(a)[:60], show(b)[:60]))
        lo, hi = int(a.a[1].a[0]), int(b.a[1].a[0])
        k = len(self.shuffles)
        self.shuffles.append([E.load(el(a.a[0], num(i)), st) for i in range(lo, hi)])
        for i in range(lo, hi):
            st.env[el(a.a[0], num(i))] = sym("shuffle%d_%d" % (k, i - lo))
        return ZERO

    def content(self, k):
        """what the k-th shuffle shuffled, sorted, as numbers"""
        r = []
        for x in self.shuffles[k]:
            if is_num(x):
                r.append(int(x.a[0]))
            elif x.op == "sym" and str(x.a[0]).startswith("shuffle"):
                j, i = [int(y) for y in str(x.a[0])[7:].split("_")]
                if j >= k:
                    raise Unknown("a shuffle of its own result")
                r.append((j, i))
            else:
                raise Unknown("shuffled value %s" % show(x)[:60])
        js = {x[0] for x in r if isinstance(x, tuple)}
        if not js:
            return sorted(r)
        if len(js) > 1 or len(js) and any(not isinstance(x, tuple) for x in r):
            raise Unknown("values of several shuffles are mixed")
        j = js.pop()
        src = self.content(j)
        if sorted(x[1] for x in r) != list(range(len(src))):
            raise Bad("a shuffle loses or repeats samples", {"shuffle": k, "shuffled": [show(x) for x in self.shuffles[k]]})
        return src

    def sample(self, testing):
        def h(E, fn, obj, args, n, st):
            self.once(E, st, "a sample")
            v = [E.lv(x, st) if isinstance(x, dict) and i < 4 else E.ev(x, st) if isinstance(x, dict) else x for i, x in enumerate(args)]
            ts = [x.a[0] if x.op == "addr" else x for x in v[:4]]
            if not is_num(v[4]):
                raise Unknown("position in the batch: %s" % show(v[4])[:60])
            k = len(self.taken)
            self.taken.append((testing, ts, int(v[4].a[0]), v[5]))
            if self.fail == k:
                return F
            if self.size:
                for j, t in enumerate(ts):
                    e = [E.load(fld(t, f), st) for f in ("width_", "height_", "maps_", "data_ptr_")]
                    if not all(is_num(x) for x in e[:3]):
                        raise Unknown("size of an output")
                    c = int(e[0].a[0]) * int(e[1].a[0]) * int(e[2].a[0])
                    for i in range(c):
                        st.env[el(e[3], num(int(v[4].a[0]) * c + i))] = sym("s%d_%d_%d" % (k, j, i))
            return T
        return h

    def connect(self):
        s = self.s
        v = s.vec("inputs", [])
        o = s.vec("outputs", [])
        r = s.run(s.method(L, "CreateOutputs", 2), this=self.l, args={0: v, 1: o}, cls=L)
        if r.ret is not T:
            raise Bad("CreateOutputs fails without inputs", {"result": show(r.ret)})
        self.out = s.vec_items(o)
        if self.out is None or len(self.out) != 4:
            raise Bad("number of outputs", {"outputs": self.out and len(self.out)})
        r = s.run(s.method(L, "Connect", 3), this=self.l, args={0: v, 1: o, 2: s.obj("net")}, cls=L)
        if r.ret is not T:
            raise Bad("Connect refuses the outputs the layer created", {"result": show(r.ret)})
        return self

    def forward(self):
        s = self.s
        k = len(self.taken)
        s.run(s.method(L, "FeedForward", 0), this=self.l, args={}, cls=L)
        return self.taken[k:]

    def mode(self, testing):
        s = self.s
        s.run(s.method(L, "SetTestingMode", 1), this=self.l, args={0: T if testing else F}, cls=L)

    def tensor(self, i):
        return fld(el(self.out[i]), "data")

    def value(self, i, k):
        st = self.s.st
        return self.s.E.load(el(self.s.E.load(fld(self.tensor(i), "data_ptr_"), st), num(k)), st)


def number(x):
    if not is_num(x):
        raise Unknown("sample number %s" % show(x)[:60])
    return int(x.a[0])


def settled(v):
    """a value that is not the one it must be: it is another one, or depends on a random number"""
    return v.op in ("sym", "num") or any(x.op == "sym" and str(x.a[0]).startswith("draw") for x in walk(v))


def check_batch(X, got):
    """every position of the batch is filled once, in the layer's outputs"""
    if sorted(x[2] for x in got) != list(range(X.batch)):
        raise Bad("positions of the batch", {"filled": [x[2] for x in got], "batch": X.batch})
    for x in got:
        if x[1] != [X.tensor(i) for i in range(4)]:
            raise Bad("a sample is not written to the outputs data, label, helper, weight", {"sample at": x[2]})


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["std::shuffle permutes its range", "random numbers lie in [0, 1)", "data sets and batches of bounded size"]

    def where(q):
        f = prog.byq[q][0]
        return "%s:%d" % (f["file"], f["line"])

    def guard(key, where, rule, thunk):
        def g():
            try:
                return thunk()
            except Bad as e:
                return Verdict("different", e.what, dict(e.witness))
        R.guard(key, where, rule, g)

    def uses(X):
        R.uses(*X.s.fns)
        R.uses(*sorted(X.s.E.inlined))

    SETS = [(1, 1), (3, 1), (3, 2), (4, 3), (2, 5), (5, 5)] + ([(7, 3), (6, 4), (1, 4)] if R.thorough else [])

    def epochs():
        done = 0
        for train, batch in SETS:
            X = Feed(prog, train, 3, batch, True).connect()
            X.s.E.hooks["std::uniform_real_distribution<float>::operator()"] = lambda E, fn, obj, args, n, st: ZERO
            X.size = None
            seen = []
            # interrupted by tests at irregular places: they do not disturb the order
            for turn in range(3 * train // batch + 2):
                if turn % 2:
                    X.mode(True)
                    for x in range(turn % 3):
                        X.forward()
                    X.mode(False)
                got = X.forward()
                check_batch(X, got)
                if any(x[0] for x in got):
                    raise Bad("a testing sample is used for training", {"training samples": train, "batch": batch})
                seen += [x[3] for x in sorted(got, key=lambda x: x[2])]
            uses(X)
            last = None
            for e in range(0, len(seen), train):
                part = seen[e:e + train]
                ks, pos = set(), []
                for x in part:
                    if is_num(x):
                        raise Bad("the order of an epoch is not random", {"epoch": e // train, "sample": show(x), "training samples": train})
                    if x.op != "sym" or not str(x.a[0]).startswith("shuffle"):
                        raise Unknown("sample %s" % show(x)[:60])
                    k, i = [int(y) for y in str(x.a[0])[7:].split("_")]
                    ks.add(k)
                    pos.append(i)
                w = {"training samples": train, "batch": batch, "epoch": e // train, "order": [show(x) for x in part]}
                if len(ks) != 1:
                    raise Bad("an epoch mixes two orders: samples are repeated or left out", w)
                k = ks.pop()
                if X.content(k) != list(range(train)):
                    raise Bad("the shuffled samples are not the training set", dict(w, samples=X.content(k)))
                if len(set(pos)) != len(pos):
                    raise Bad("a sample is used twice in an epoch", w)
                if last is not None and k <= last:
                    raise Bad("an epoch repeats the order of an earlier one", w)
                last = k
            done += len(seen)
        return Verdict("equal", points=done)
    guard("an epoch of training", where(L + "::FeedForward"), "every training sample is fed exactly once per epoch, in a newly shuffled order", epochs)

    def tests():
        done = 0
        for test, batch in SETS:
            for fcn in (True, False):
                X = Feed(prog, 4, test, batch, fcn, size=(2, 1) if fcn else (3, 2)).connect()
                for rounds, before in ((test // batch + 1, 0), (1, 1), ((test + batch - 1) // batch + 1, 2)):
                    for _ in range(before):
                        X.forward()
                    X.mode(True)
                    nxt = 0
                    for r in range(rounds):
                        k0 = len(X.taken)
                        got = X.forward()
                        check_batch(X, got)
                        per = [2 * X.maps[0], 2 * X.maps[1], 4, 2] if fcn else [6 * X.maps[0], X.maps[1], 2, 1]
                        for x in sorted(got, key=lambda x: x[2]):
                            w = {"testing samples": test, "batch": batch, "expected": nxt, "round": r, "method": "FCN" if fcn else "PATCH"}
                            if not x[0]:
                                raise Bad("a training sample is used for testing", w)
                            i = number(x[3])
                            if not 0 <= i < test:
                                raise Bad("a testing sample that does not exist", dict(w, requested=i))
                            past = nxt >= test
                            if not past and i != nxt:
                                raise Bad("testing samples are not fed in order from the first", dict(w, fed=i))
                            k = X.taken.index(x, k0)
                            for j in range(4):
                                for e in range(per[j]):
                                    v = X.value(j, x[2] * per[j] + e)
                                    need = ZERO if past and j == 3 else sym("s%d_%d_%d" % (k, j, e))
                                    if past and j < 3:
                                        continue
                                    if v is not need:
                                        if not settled(v):
                                            raise Unknown("output %d: %s" % (j, show(v)[:60]))
                                        raise Bad("weights past the last testing sample are not zero" if past else "a testing sample does not reach the outputs unchanged",
                                                  dict(w, output=j, element=e, value=show(v)))
                            nxt += 1
                    X.mode(False)
                    done += nxt
                uses(X)
        return Verdict("equal", points=done)
    guard("a test", where(L + "::FeedForward"), "testing samples are fed in order from the first one; what follows the last one has no weight", tests)

    def blocks():
        done = 0
        for w, h in [(12, 12), (13, 25), (11, 3), (24, 1)] + ([(30, 14)] if R.thorough else []):
            for batch in (1, 2):
                X = Feed(prog, 3, 1, batch, True, size=(w, h), maps=(1, 1)).connect()
                for turn in range(2):
                    k0 = len(X.taken)
                    got = X.forward()
                    check_batch(X, got)
                    used = {}
                    pairs = []
                    for x in got:
                        k = X.taken.index(x, k0)
                        for by in range(0, h, 12):
                            for bx in range(0, w, 12):
                                els = {(px, py): X.value(3, (x[2] * h + py) * w + px) for py in range(by, min(h, by + 12)) for px in range(bx, min(w, bx + 12))}
                                ds = set()
                                for v in els.values():
                                    ds |= {t for t in walk(v) if t.op == "sym" and str(t.a[0]).startswith("draw")}
                                wt = {"size": (w, h), "block": (bx, by), "position": x[2], "draws": sorted(show(d) for d in ds)}
                                if len(ds) != 1:
                                    raise Bad("a block's weights do not depend on exactly one random number", wt)
                                d = ds.pop()
                                if d in used:
                                    raise Bad("two blocks depend on the same random number", dict(wt, other=used[d]))
                                used[d] = (x[2], bx, by)
                                for (px, py), v in els.items():
                                    pairs.append((v, ite(gt0(sub(d, sym("p"))), ZERO, sym("s%d_3_%d" % (k, py * w + px)))))
                                    done += 1
                        for j in range(3):
                            for e in range(w * h * (2 if j == 2 else 1)):
                                v = X.value(j, x[2] * w * h * (2 if j == 2 else 1) + e)
                                if v is not sym("s%d_%d_%d" % (k, j, e)):
                                    if not settled(v):
                                        raise Unknown("output %d: %s" % (j, show(v)[:60]))
                                    raise Bad("a training sample does not reach the outputs unchanged", {"output": j, "element": e, "value": show(v)})

                    def pts(rng):
                        p = rng.choice((0, 1, 3, 8))
                        a = {d: Fraction(rng.choice([q for q in range(8) if q != p]), 8) for d in used}
                        a[sym("p")] = Fraction(p, 8)
                        return a
                    syms = set()
                    for a, _ in pairs:
                        syms |= {t for t in walk(a) if t.op == "sym"}

                    def points(rng):
                        a = pts(rng)
                        for q in syms:
                            if q not in a:
                                a[q] = rng.randint(1, 9)
                        return a
                    v = values_agree(pairs, points, seed=R.seed, want=8)
                    if v.kind != "equal":
                        return v
                uses(X)
        return Verdict("equal", "identity test", points=done)
    guard("loss sampling", where(L + "::FeedForward"), "a block of 12 x 12 pixels keeps its weights exactly if its random number is not above the probability", blocks)

    def patches():
        X = Feed(prog, 3, 1, 2, False, size=(4, 3)).connect()
        for turn in range(3):
            k0 = len(X.taken)
            for x in X.forward():
                k = X.taken.index(x, k0)
                for j, per in enumerate((12 * X.maps[0], X.maps[1], 2, 1)):
                    for e in range(per):
                        v = X.value(j, x[2] * per + e)
                        if v is not sym("s%d_%d_%d" % (k, j, e)):
                            if not settled(v):
                                raise Unknown("output %d: %s" % (j, show(v)[:60]))
                            raise Bad("a patch does not reach the outputs unchanged", {"output": j, "element": e, "value": show(v)})
        uses(X)
        return True
    guard("patches", where(L + "::FeedForward"), "the weights of patches are those of the data set", patches)

    def shapes():
        for fcn in (True, False):
            X = Feed(prog, 5, 4, 3, fcn).connect()
            uses(X)
            s = X.s
            one = (lambda v: v) if fcn else (lambda v: ONE)
            want = [(W, H, DM), (one(W), one(H), LM), (one(W), one(H), num(2)), (one(W), one(H), ONE)]
            pairs = []
            for i in range(4):
                for part in ("data", "delta"):
                    t = fld(el(X.out[i]), part)
                    for g, v in zip(("samples", "width", "height", "maps"), (num(3),) + want[i]):
                        pairs.append((s.query(T_, g, addr(t)), v))
            for g, v in (("GetLabelWidth", one(W)), ("GetLabelHeight", one(H)), ("GetBatchSize", num(3)), ("GetSamplesInTrainingSet", num(5)), ("GetSamplesInTestingSet", num(4)),
                         ("GetLossSamplingProbability", sym("p"))):
                pairs.append((s.query(L, g, X.l), v))
            if len(set(X.out)) != 4:
                raise Bad("two outputs are the same")
            v = values_agree(pairs, lambda rng: {W: rng.randint(1, 9), H: rng.randint(1, 9), DM: rng.randint(1, 5), LM: rng.randint(1, 5), sym("p"): Fraction(1, 3)}, s.assumptions(), seed=R.seed)
            if v.kind != "equal":
                return v
            b = s.vec("buffers", [])
            s.run(s.method(L, "CreateBufferDescriptors", 1), this=X.l, args={0: b}, cls=L)
            n = s.E.load(fld(s.E.vec(b, s.st), "#size"), s.st)
            if n is not num(4):
                raise Bad("number of buffer descriptors", {"descriptors": show(n)})
        return True
    guard("outputs", where(L + "::CreateOutputs"), "data, label, helper and weight have the sizes the data set and its method require", shapes)

    def refused():
        for i, o in ((1, 4), (0, 3), (0, 5), (0, 0)):
            X = Feed(prog, 5, 4, 3, True).connect()
            s = X.s
            ins = s.vec("more_inputs", [X.out[0]] * i)
            outs = s.vec("more_outputs", (X.out + X.out)[:o])
            r = s.run(s.method(L, "Connect", 3), this=X.l, args={0: ins, 1: outs, 2: s.obj("net")}, cls=L)
            if r.ret is not F:
                if r.ret is not T:
                    raise Unknown("result %s" % show(r.ret)[:60])
                raise Bad("Connect accepts a wrong number of inputs or outputs", {"inputs": i, "outputs": o})
            if i:
                r = s.run(s.method(L, "CreateOutputs", 2), this=X.l, args={0: ins, 1: s.vec("new_outputs", [])}, cls=L)
                if r.ret is not F:
                    raise Bad("CreateOutputs accepts inputs", {"result": show(r.ret)})
        for at in range(4):
            X = Feed(prog, 5, 4, 3, True).connect()
            s = X.s
            outs = s.vec("more_outputs", [NULL if i == at else x for i, x in enumerate(X.out)])
            r = s.run(s.method(L, "Connect", 3), this=X.l, args={0: s.vec("more_inputs", []), 1: outs, 2: s.obj("net")}, cls=L)
            if r.ret is not F:
                if r.ret is not T:
                    raise Unknown("result %s" % show(r.ret)[:60])
                raise Bad("Connect accepts a missing output", {"output": at})
        return True
    guard("connections that make no sense", where(L + "::Connect"), "are refused", refused)

    def failure():
        for testing in (False, True):
            for at in (0, 1):
                X = Feed(prog, 3, 3, 2, False, size=(2, 2), fail=at).connect()
                X.mode(testing)
                try:
                    X.forward()
                except NeverReturns:
                    continue
                except AnalysisError as e:
                    if "never" in str(e):
                        continue
                    raise
                raise Bad("a sample the data set cannot deliver goes unnoticed", {"testing": testing, "sample": at})
        return True
    guard("a sample that cannot be loaded", where(L + "::FeedForward"), "ends the program instead of training on stale data", failure)
