"""Training and testing drive the network, its modes and its statistics as documented."""
from terms import *
from program import program
from compare import Verdict, Unknown, values_agree
from training import Training, net, TR, AG, PARAMS

MIN = 8
LOSSSTAT, PIXELS, FRAMES = "Average Aggregate Loss", "Pixel Throughput", "Frame Rate"


class Bad(Exception):
    pass


def need(c, what, **kw):
    if not c:
        raise Bad(dict(what=what, **kw))


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["layers record the calls they receive and do nothing else", "bounded scenarios: networks of six to eight nodes, few iterations",
                      "a loss layer returns an arbitrary value each time it is asked"]

    def where(n):
        f = prog.byq[TR + "::" + n][0]
        return "%s:%d" % (f["file"], f["line"])

    class Trace:
        """events of one call, consumed front to back"""

        def __init__(self, t, events, before=()):
            self.t, self.i = t, 0
            self.ev = []
            for e in events:
                if e.kind == "throw":
                    raise Bad({"what": "%s gives up" % e.where(), "at": e.where()})
                if e.kind in ("ev", "update"):
                    if e.loops or [p for p in e.pc if p is not T]:
                        raise Unknown("%s depends on data" % e.where())
                    if e.kind == "ev" and e.d["what"] == "SetBackpropagationEnabled" or e.kind == "update" and e.d["stat"].startswith("QuickProp"):
                        continue
                    self.ev.append(e)

        def peek(self):
            return self.ev[self.i] if self.i < len(self.ev) else None

        def take(self, what):
            """maximal run of events of that kind"""
            out = []
            while self.peek() is not None and self.peek().kind == "ev" and self.peek().d["what"] == what:
                out.append(self.peek())
                self.i += 1
            return out

        def each(self, what, layers, testing=None, args=None, why=""):
            got = self.take(what)
            names = sorted(self.t.G.bylayer[e.d["layer"]] for e in got)
            need(names == sorted(layers), "%s: %s reaches %s instead of %s" % (why, what, names, sorted(layers)))
            for e in got:
                if testing is not None:
                    need(e.d["testing"] is (T if testing else F), "%s: %s is called with the network in %s mode" % (why, what, "training" if testing else "testing"), at=e.where())
                if args is not None:
                    need(tuple(e.d["a"][:len(args)]) == tuple(args), "%s: %s gets %s" % (why, what, [show(x) for x in e.d["a"]]), at=e.where())
            return got

        def update(self, stat, why):
            e = self.peek()
            need(e is not None and e.kind == "update" and e.d["stat"] == stat, "%s: expected an update of '%s', found %s" % (
                why, stat, "nothing" if e is None else e.d.get("stat") or e.d.get("what")), at=e.where() if e else None)
            self.i += 1
            return e.d["val"]

        def end(self, why):
            e = self.peek()
            need(e is None, "%s: unexpected %s" % (why, e and (e.d.get("stat") or e.d.get("what"))), at=e and e.where())

    VALS = [sym(x) for x in ("LW", "LH", "LP")]

    def agree(v, want, what):
        if v is want:
            return

        def pts(rng):
            d = {a: rng.randint(1, 4) for a in VALS}
            d[sym("LP")] = rng.choice((0.25, 0.5, 1.0))
            for x in list(walk(v)) + list(walk(want)):
                if x.op == "sym" and x not in d:
                    d[x] = rng.uniform(-3, 3)
            return d
        q = values_agree([(v, want)], pts, want=8, seed=R.seed)
        if q.kind == "undecided":
            raise Unknown(q.detail)
        need(q.kind == "equal", what, found=show(v)[:200], required=show(want)[:200])

    def loss(t, since):
        out = []
        for l in t.lossnames:
            out.append(sym("L%d_%s" % (since + 1, l)))
        return addn(out)

    def addn(xs):
        r = ZERO
        for x in xs:
            r = add(r, x)
        return r

    def sample_count(t):
        return mul(mul(sym("LW"), sym("LH")), num(t.batch))

    def epoch(t, tr, its, sb, stats, st):
        """one epoch: the batches of every iteration, then the statistics"""
        why = "epoch"
        tr.each("SetTestingMode", t.trainnames, args=(F,), why=why)
        for i in range(its):
            total = ZERO
            for b in range(sb):
                why = "iteration %d, batch %d" % (i, b)
                tr.each("FeedForward", t.names, False, why=why)
                tr.each("loss", t.lossnames, False, why=why)
                tr.each("BackPropagate", t.names, False, why=why)
                st["k"] += 1
                total = add(total, addn(sym("L%d_%s" % (st["k"], l)) for l in t.lossnames))
            v = tr.update(LOSSSTAT, why)
            agree(v, fdiv(total, mul(mul(sample_count(t), num(sb)), sym("LP"))), "aggregate loss of an iteration is not the sum of the losses per sampled pixel")
        why = "end of the epoch"
        agree(tr.update(PIXELS, why), mul(sample_count(t), num(its * sb)), "pixel count of an epoch")
        agree(tr.update(FRAMES, why), num(t.batch * its * sb), "sample count of an epoch")
        if stats:
            pairs(tr, t, why, T)

    def pairs(tr, t, why, flag):
        seen = []
        for _ in t.statnames:
            tr_ = tr.peek()
            need(tr_ is not None and tr_.kind == "ev" and tr_.d["what"] == "UpdateAll", "%s: statistics layers do not submit their results" % why)
            l = tr_.d["layer"]
            tr.i += 1
            seen.append(t.G.bylayer[l])
            e = tr.peek()
            if e is not None and e.kind == "ev" and e.d["what"] == "Print":
                need(e.d["layer"] is l and e.d["a"][1] is flag, "%s: a statistics layer prints as %s" % (why, "testing" if flag is T else "training"), at=e.where())
                tr.i += 1
            else:
                raise Bad({"what": "%s: a statistics layer is not printed" % why})
        need(sorted(seen) == sorted(t.statnames), "%s: statistics of %s instead of %s" % (why, seen, t.statnames))

    def test(t, tr, its, st):
        tr.each("SetTestingMode", t.trainnames, args=(T,), why="test")
        for i in range(its):
            why = "test iteration %d" % i
            tr.each("FeedForward", t.names, True, why=why)
            tr.each("loss", t.lossnames, True, why=why)
            st["k"] += 1
            agree(tr.update(LOSSSTAT, why), fdiv(addn(sym("L%d_%s" % (st["k"], l)) for l in t.lossnames), sample_count(t)), "aggregate loss of a test iteration is not the sum of the losses per pixel")
        why = "end of the test"
        agree(tr.update(PIXELS, why), mul(sample_count(t), num(its)), "pixel count of a test")
        agree(tr.update(FRAMES, why), num(t.batch * its), "sample count of a test")
        pairs(tr, t, why, F)
        tr.each("SetTestingMode", t.trainnames, args=(F,), why=why)

    def make(losses=1, stats=1, trainings=1, its=1, sb=1, ratio=ONE, tratio=ONE, during=T, recording=True, ntrain=7, ntest=9, batch=2, method=0):
        sh = net(losses, stats, trainings)
        t = Training(prog, sh, dict(iterations=num(its), sbatchsize=num(sb), optimization_method=num(method), epoch_training_ratio=ratio, testing_ratio=tratio,
                                    stats_during_training=during), params={"a": ["wa"], "b": [], "c": []}, recording=recording, ntrain=ntrain, ntest=ntest, batch=batch)
        t.names = [n.name for n in sh]
        t.lossnames = [n for n in t.names if n.startswith("loss")]
        t.statnames = [n for n in t.names if n.startswith("stat")]
        t.trainnames = [n for n in t.names if n.startswith("in")]
        t.counted = t.s.get(t.agg, "hardcoded_stats_", "iterations")
        return t

    def hard(t, f):
        return t.s.get(t.agg, "hardcoded_stats_", f)

    def counted(t):
        return sub(hard(t, "iterations"), t.counted)

    def scenario(fn, kw):
        def g():
            n = 0
            for k in kw:
                t = make(**k)
                st = {"k": 0}
                try:
                    fn(t, st, **k)
                except Bad as e:
                    return Verdict("different", e.args[0]["what"], dict(e.args[0], settings={x: show(y) if isinstance(y, Term) else y for x, y in k.items()}))
                n += 1
                R.uses(*sorted(t.s.E.inlined))
            R.count("trainers", n)
            return Verdict("equal", "partial evaluation", points=n)
        return g

    def its_of(k):
        n = k.get("its", 1) or k.get("ntrain", 7)
        return int(n * k.get("ratio", ONE).a[0])

    def do_epoch(t, st, **k):
        tr = Trace(t, t.call("Epoch"))
        epoch(t, tr, its_of(k), k.get("sb", 1), k.get("during", T) is T, st)
        tr.end("epoch")
        e = t.s.query(TR, "epoch", t.t, nparams=0)
        need(e is ONE, "the epoch number is %s after the first epoch" % show(e))
        rec = k.get("recording", True)
        n = counted(t)
        need(n is num(its_of(k) if rec else 0), "%s iterations are counted in an epoch of %d with recording %s" % (show(n), its_of(k), "on" if rec else "off"))

    H = num("1/2")
    R.guard("epoch", where("Epoch"), "an epoch feeds forward, takes the losses, backpropagates each batch in training mode and submits its statistics",
            scenario(do_epoch, [dict(), dict(its=2, sb=2), dict(losses=2, stats=2, its=2), dict(trainings=2), dict(stats=0, during=F), dict(stats=2, during=F)]))
    R.guard("iterations of an epoch", where("Epoch"), "an epoch has the configured iterations, or those of the training set, times the ratio",
            scenario(do_epoch, [dict(its=0, ntrain=3), dict(its=0, ntrain=6, ratio=H), dict(its=4, ratio=H), dict(its=3, ratio=H), dict(its=0, ntrain=5, batch=3, ratio=H)]))
    R.guard("iterations are counted while recording", where("Epoch"), "the iteration counter of the statistics advances only while recording",
            scenario(do_epoch, [dict(its=2, recording=False), dict(its=2, recording=True), dict(its=1, sb=2)]))

    def weights(t, tr_effects):
        for e in tr_effects:
            if e.kind == "store" and e.loops:
                for x in walk(e.d["lv"]):
                    if x.op == "alloc" and x in {t.data(p) for p in t.tensor}:
                        raise Bad({"what": "testing changes a parameter", "at": e.where()})

    def do_test(t, st, **k):
        log = t.call("Test")
        tr = Trace(t, log)
        exact = k.get("ntest", 9) / k.get("batch", 2)
        n = sum(1 for e in tr.ev if e.kind == "ev" and e.d["what"] == "loss") // len(t.lossnames)
        ratio = k.get("tratio", ONE)
        if ratio is ONE:
            need(n >= exact and n <= exact + 1, "%d batches of %d are tested for %d test samples" % (n, k.get("batch", 2), k.get("ntest", 9)))
        else:
            full = (int(exact) + 1, -int(-exact // 1))
            need(n in {int(x * ratio.a[0]) for x in full}, "%d batches are tested at ratio %s" % (n, show(ratio)))
        test(t, tr, n, st)
        tr.end("test")
        weights(t, log)
        need(t.s.query(TR, "epoch", t.t, nparams=0) is ZERO, "testing advances the epoch")
        rec = k.get("recording", True)
        c = counted(t)
        need(c is num(n if rec else 0), "%s iterations are counted in a test of %d with recording %s" % (show(c), n, "on" if rec else "off"))
        need(hard(t, "weights") is not ZERO, "the number of weights is not recorded")

    R.guard("test", where("Test"), "a test feeds the test samples forward in testing mode, submits losses and statistics, and changes no parameter",
            scenario(do_test, [dict(), dict(losses=2, stats=2), dict(trainings=2), dict(ntest=8), dict(ntest=1, batch=4), dict(recording=False), dict(stats=2, during=F)]))
    R.guard("part of the test set", where("Test"), "the testing ratio scales the number of test batches",
            scenario(do_test, [dict(ntest=9, tratio=H), dict(ntest=11, tratio=H), dict(ntest=7, batch=1, tratio=H)]))

    def do_train(t, st, epochs, snap, **k):
        during = k.get("during", T)
        tr = Trace(t, t.call("Train", num(epochs), T if snap else F))
        # statistics layers follow the setting while training
        tr.each("SetDisabled", t.statnames, args=(not_(during),), why="start of training")
        for e in range(epochs):
            epoch(t, tr, its_of(k), k.get("sb", 1), during is T, st)
            if snap:
                got = tr.take("Snapshot")
                need(len(got) == 1, "epoch %d is followed by %d snapshots" % (e, len(got)))
        tr.each("SetDisabled", t.statnames, args=(F,), why="end of training")
        tr.end("training")
        need(t.s.query(TR, "epoch", t.t, nparams=0) is num(epochs), "the epoch number is %s after %d epochs" % (show(t.s.query(TR, "epoch", t.t, nparams=0)), epochs))
        need(hard(t, "epoch") is num(max(0, epochs - 1)), "statistics are filed under epoch %s in epoch %d" % (show(hard(t, "epoch")), epochs - 1))
        w = sym("waS")
        for x in "WHM":
            w = mul(w, sym("wa" + x))
        agree(hard(t, "weights"), w, "the number of weights recorded for the statistics")

    for snap in (False, True):
        R.guard("training%s" % (" with snapshots" if snap else ""), where("Train"), "training runs the epochs with the statistics layers as configured and enables them afterwards",
                scenario(lambda t, st, snap=snap, **k: do_train(t, st, 2, snap, **k), [dict(), dict(during=F, stats=2), dict(losses=2, its=2), dict(stats=2, sb=2)]))

    def mixed(t, st, **k):
        # train, test, train again: modes are restored
        do_train(t, st, 1, False, **k)
        tr = Trace(t, t.call("Test"))
        n = sum(1 for e in tr.ev if e.kind == "ev" and e.d["what"] == "loss") // len(t.lossnames)
        test(t, tr, n, st)
        tr.end("test")
        tr = Trace(t, t.call("Epoch"))
        epoch(t, tr, its_of(k), k.get("sb", 1), k.get("during", T) is T, st)
        tr.end("epoch")
        need(t.s.query(TR, "epoch", t.t, nparams=0) is num(2), "the epoch number is %s after two epochs" % show(t.s.query(TR, "epoch", t.t, nparams=0)))
        t.call("SetEpoch", num(5))
        Trace(t, t.call("Epoch"))
        need(t.s.query(TR, "epoch", t.t, nparams=0) is num(6), "the epoch number is %s after epoch 5" % show(t.s.query(TR, "epoch", t.t, nparams=0)))
        need(hard(t, "epoch") is num(5), "statistics are filed under epoch %s in epoch 5" % show(hard(t, "epoch")))
    R.guard("training after testing", where("Epoch"), "an epoch after a test runs in training mode", scenario(mixed, [dict(), dict(stats=2, during=F), dict(trainings=2, ntest=3)]))

    def refuse():
        from graphs import Node, TRAIN, LOSS
        n = 0
        for sh in ([Node("a", is_input=True, nout=1), Node("b", [("a", 0)], is_output=True, cls=LOSS)],
                   [Node("in", is_input=True, nout=2, cls=TRAIN), Node("b", [("in", 0)], is_output=True)]):
            try:
                t = Training(prog, sh, dict(iterations=ONE, sbatchsize=ONE, optimization_method=ZERO), params={})
            except Exception as e:
                if "never returns" not in str(e):
                    raise
                n += 1
                continue
            if any(e.kind == "throw" for e in t.s.log[t.start:]):
                n += 1
                continue
            return Verdict("different", "a network without %s is accepted" % ("training layer" if n == 0 else "loss layer"), {})
        return Verdict("equal", "partial evaluation", points=n)
    R.guard("networks that cannot be trained", where("Trainer"), "a network without training layer or loss function is refused", refuse)
