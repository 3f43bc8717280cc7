"""Statistics: recording, aggregation and delivery to the sinks."""
import random
from terms import *
from session import Session
from program import program, AnalysisError
from compare import Verdict, Unknown

MIN = 6
AG, ST, SD, HC = "Conv::StatAggregator", "Conv::Stat", "Conv::StatDescriptor", "Conv::HardcodedStats"


def isnum(t):
    return is_num(t)


class Aggregation:
    """An aggregator with abstract descriptors and sinks next to a model of it"""

    def __init__(self, prog, sinks, stats, session=None, descs=None):
        self.prog, self.nsinks, self.seen, self.clock = prog, sinks, [], 0
        self.abstract = session is None
        s = self.s = session or Session(prog, opaque=(), nonempty=False)
        s.E.concrete = True
        for q in [q for q in s.E.hooks if str(q).startswith(AG)]:
            del s.E.hooks[q]
        s.E.hooks["std::chrono::system_clock::now"] = self.now
        s.E.hooks["std::chrono::operator-"] = lambda E, fn, obj, a, n, st: sub(self.value(E, a[0], st), self.value(E, a[1], st))
        for q in self.quals(prog):
            if q.startswith("std::function<") and q.endswith("operator()") and self.abstract:
                s.E.hooks[q] = self.function
            elif q.startswith("std::chrono::") and q.endswith("::operator="):
                s.E.hooks[q] = self.assign
            elif q.startswith("std::chrono::duration<") and (q.endswith("::duration") or q.endswith("::count")):
                s.E.hooks[q] = self.duration
        for f in ("Initialize", "Process", "SetCurrentExperiment"):
            s.E.hooks["Conv::StatSink::" + f] = self.sink(f)
        self.given = descs
        self.agg = s.construct(AG, "agg" if self.abstract else "agg2", [])
        self.sinks = [s.obj("sink%d" % i) for i in range(sinks)]
        self.descs, self.ids = [], []
        # the model
        self.state, self.stats, self.sec, self.start = "init", [], ZERO, None
        self.hc = {"iterations": ZERO, "weights": ZERO, "epoch": ZERO, "is_training": F}
        self.want, self.desc_count = [], 0
        for i in range(stats):
            self.do("register")
        for x in self.sinks:
            self.s.run(s.method(AG, "RegisterSink", 1), this=self.agg, args={0: x}, cls=AG)

    @staticmethod
    def quals(prog):
        out = set()

        def w(n):
            if isinstance(n, dict):
                f = n.get("fn")
                if isinstance(f, dict) and f.get("q"):
                    out.add(f["q"])
                for v in n.values():
                    w(v)
            elif isinstance(n, list):
                for v in n:
                    w(v)
        for fs in prog.byq.values():
            for f in fs:
                if "StatAggregator" in f["file"]:
                    w(f.get("body"))
        return out

    # ------------------------------------------------------------- hooks
    def value(self, E, a, st):
        v = E.ev(a, st) if isinstance(a, dict) else a
        return self.plain(E, v, st)

    def plain(self, E, v, st):
        for _ in range(6):
            if v.op == "val":
                v = E.load(v.a[0], st)
            elif v.op == "obj" and "duration<double>::duration" in str(v.a[0]):
                v = v.a[-1]
        return v

    def assign(self, E, fn, obj, args, n, st):
        E.store(el(obj), self.value(E, args[0], st), st, n)
        return addr(el(obj))

    def now(self, E, fn, obj, args, n, st):
        self.clock += 1
        return sym("now%d" % self.clock)

    def duration(self, E, fn, obj, args, n, st):
        q = fn["q"]
        if "<double>" not in q:
            raise Unknown("unit of a duration")
        if q.endswith("count"):
            return self.plain(E, E.load(el(obj), st), st)
        if obj is not None:
            E.store(el(obj), self.value(E, args[0], st), st, n)
            return ZERO
        return self.value(E, args[0], st)

    def function(self, E, fn, obj, args, n, st):
        v = E.load(el(obj), st)
        if v.op != "fnptr" or not str(v.a[0]).startswith("model:"):
            self.seen.append(("function of an unknown statistic",))
            return NotImplemented
        _, kind, i = str(v.a[0]).split(":")
        if [c for c in st.pc if c is not T]:
            raise Unknown("condition on calling a statistic's function")
        lvs = [E.lv(a, st) if isinstance(a, dict) else el(a) for a in args]
        if kind == "init":
            E.store(fld(lvs[0], "value"), mk("call", "init", num(int(i))), st, n)
            E.store(fld(lvs[0], "is_null"), T, st, n)
        elif kind == "update":
            x = self.value(E, args[1], st)
            E.store(fld(lvs[0], "value"), mk("call", "update", num(int(i)), E.load(fld(lvs[0], "value"), st), x), st, n)
            E.store(fld(lvs[0], "is_null"), F, st, n)
        else:
            t = E.temp_obj(ST) if hasattr(E, "temp_obj") else mk("var", "out@%d" % E.nid())
            E.store(fld(t, "value"), mk("call", "output", num(int(i)), E.load(fld(lvs[1], "value"), st), *[E.load(fld(lvs[0], f), st) for f in ("seconds_elapsed", "iterations", "weights", "epoch")]), st, n)
            E.store(fld(t, "is_null"), E.load(fld(lvs[1], "is_null"), st), st, n)
            return mk("val", t)
        return ZERO

    def sink(self, what):
        def h(E, fn, obj, args, n, st):
            k = [i for i, x in enumerate(self.sinks) if x is obj]
            if not k or E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("call of a sink: %s" % what)
            if what == "SetCurrentExperiment":
                v = E.ev(args[0], st) if isinstance(args[0], dict) else args[0]
                if v.op == "val":
                    v = E.load(v.a[0], st)
                self.seen.append((what, k[0], v))
            elif what == "Initialize":
                lv = E.lv(args[0], st) if isinstance(args[0], dict) else el(args[0])
                self.seen.append((what, k[0]) + tuple(E.load(el(mk("vdata", lv), num(i)), st) for i in range(self.length(E, lv, st))))
            else:
                h, v = [E.lv(a, st) if isinstance(a, dict) else el(a) for a in args]
                rec = [what, k[0]] + [E.load(fld(h, f), st) for f in ("seconds_elapsed", "iterations", "weights", "epoch", "is_training")]
                for i in range(self.length(E, v, st)):
                    p = E.load(el(mk("vdata", v), num(i)), st)
                    rec.append((E.load(fld(el(p), "value"), st), E.load(fld(el(p), "is_null"), st)))
                self.seen.append(tuple(rec))
            return ZERO
        return h

    def length(self, E, lv, st):
        v = E.load(fld(lv, "#size"), st)
        if not is_num(v):
            raise Unknown("number of statistics given to a sink")
        return int(v.a[0])

    # --------------------------------------------------------------- operations
    def fn(self, name, args=()):
        f = self.s.method(AG, name, len(args))
        self.s.run(f, this=self.agg, args=dict(enumerate(args)), cls=AG)

    def do(self, op, *a):
        getattr(self, "op_" + op)(*a)

    def op_register(self):
        s, i = self.s, len(self.descs)
        d = s.construct(SD, "desc%d" % i, []) if self.given is None else self.given[i]
        for k in ()  if self.given is not None else ("init", "update", "output"):
            s.st.env[fld(el(d), k + "_function")] = mk("fnptr", "model:%s:%d" % (k, i))
        self.descs.append(d)
        r = s.run(s.method(AG, "RegisterStat", 1), this=self.agg, args={0: d}, cls=AG)
        self.ids.append((r.ret, s.get(d, "stat_id")))
        self.stats.append(None if self.state == "init" else (mk("call", "init", num(i)), T))
        self.count = len(self.descs)

    def reset(self):
        if self.state == "stopped":
            self.sec = ZERO
            self.hc["iterations"] = self.hc["weights"] = ZERO
            self.stats = [(mk("call", "init", num(i)), T) for i in range(len(self.descs))]

    def stop(self):
        if self.state == "recording":
            self.clock_end = self.expected_clock()
            self.sec = add(self.sec, sub(self.clock_end, self.start))
            self.state = "stopped"

    def begin(self):
        if self.state == "stopped":
            self.start = self.expected_clock()
            self.state = "recording"

    def generate(self):
        for k in range(self.nsinks):
            hc = [self.sec] + [self.hc[f] for f in ("iterations", "weights", "epoch", "is_training")]
            outs = [(mk("call", "output", num(i), v, *hc[:4]), z) for i, (v, z) in enumerate(self.stats)]
            self.want.append(("Process", k) + tuple(hc) + tuple(outs))

    def expected_clock(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        return sym("now%d" % self.ticks)

    def op_Initialize(self):
        self.fn("Initialize")
        if self.state == "init":
            self.want += [("Initialize", k) + tuple(self.descs) for k in range(self.nsinks)]
            self.state = "stopped"
            self.reset()
            self.want += [("SetCurrentExperiment", k, mk("str", "unnamed")) for k in range(self.nsinks)]

    def op_Reset(self):
        self.fn("Reset")
        self.reset()

    def op_StartRecording(self):
        self.fn("StartRecording")
        self.begin()

    def op_StopRecording(self):
        self.fn("StopRecording")
        self.stop()

    def op_Generate(self):
        self.fn("Generate")
        self.generate()

    def op_Snapshot(self):
        self.fn("Snapshot")
        if self.state == "recording":
            self.stop()
            self.generate()
            self.reset()
            self.begin()

    def op_Update(self, i, v):
        self.fn("Update", (self.ids[i][0] if i < len(self.ids) else num(i), v))
        if self.state == "recording" and i < len(self.descs):
            self.stats[i] = (mk("call", "update", num(i), self.stats[i][0], v), F)

    def op_SetCurrentExperiment(self, name):
        self.fn("SetCurrentExperiment", (mk("str", name),))
        if self.state == "stopped":
            self.want += [("SetCurrentExperiment", k, mk("str", name)) for k in range(self.nsinks)]

    def op_work(self, f, v):
        """training counts iterations and weights, notes epoch and mode"""
        self.s.st.env[fld(fld(el(self.agg), "hardcoded_stats_"), f)] = v
        self.hc[f] = v


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    count = 120 if R.thorough else 30
    R.assumptions += ["the functions of a statistic and the sinks are abstract; at most three statistics and two sinks, %d generated histories of up to 18 calls" % count,
                      "reports are not requested before initialisation; sinks are registered before it"]
    f = prog.byq[AG + "::Update"][0]
    where = "%s:%d" % (f["file"], f["line"])
    rng = random.Random(R.seed + 24)
    OPS = ["StartRecording", "StopRecording", "Update", "Update", "Update", "Snapshot", "Generate", "Reset", "SetCurrentExperiment", "work"]

    def history(k, late):
        r = random.Random(R.seed * 1000 + k)
        ops = []
        started = False
        for j in range(r.randint(8, 18)):
            op = r.choice(OPS) if started else r.choice(["Initialize", "Update", "StartRecording", "Reset", "SetCurrentExperiment", "StopRecording", "Snapshot"])
            if op == "Initialize":
                started = True
            if op == "Update":
                ops.append((op, r.randint(0, 3), sym("x%d" % j)))
            elif op == "SetCurrentExperiment":
                ops.append((op, "experiment %d" % j))
            elif op == "work":
                f = r.choice(["iterations", "weights", "epoch", "is_training"])
                ops.append((op, f, num(j) if f != "is_training" else (T if j % 2 else F)))
            else:
                ops.append((op,))
            if late and started and r.random() < .15:
                ops.append(("register",))
        if started:
            ops += [("Generate",), ("Initialize",), ("StartRecording",), ("Update", 0, sym("last")), ("Snapshot",), ("StopRecording",), ("Generate",)]
        return ops

    def check(histories, nsinks, nstats):
        n = 0
        for ops in histories:
            A = Aggregation(prog, nsinks, nstats)
            for i, op in enumerate(ops):
                k = len(A.want)
                try:
                    A.do(*op)
                except AnalysisError as e:
                    if "never returns" not in str(e):
                        raise
                    return Verdict("different", "%s ends in an exception" % op[0], {"history": [str(o) for o in ops[:i + 1]]})
                if not same(tuple(A.seen), tuple(A.want)):
                    return Verdict("different", "the sinks are not given what was recorded", {
                        "history": [" ".join(map(str, o)) for o in ops[:i + 1]], "expected": [str(x)[:300] for x in A.want[k:]], "given": [str(x)[:300] for x in A.seen[k:]]})
                n += 1
            if any(i is not j or not is_num(i) for i, j in A.ids) or len({i for i, _ in A.ids}) != len(A.ids):
                return Verdict("different", "statistics do not get distinct numbers", {"numbers": [str(x) for x in A.ids]})
            R.uses(*sorted(A.s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)

    def fixed():
        yield [("Initialize",), ("StartRecording",), ("Update", 0, sym("a")), ("Update", 1, sym("b")), ("work", "iterations", num(3)), ("StopRecording",), ("Generate",), ("Reset",), ("Generate",)]
        yield [("Initialize",), ("StartRecording",), ("Update", 0, sym("a")), ("Reset",), ("StartRecording",), ("Initialize",), ("Snapshot",), ("Update", 0, sym("b")), ("SetCurrentExperiment", "x"), ("StopRecording",), ("Update", 0, sym("c")), ("SetCurrentExperiment", "y"), ("Generate",), ("StartRecording",), ("StopRecording",), ("Generate",)]
    cases = [(1, 1), (2, 3), (1, 2)]
    for ns, nd in cases:
        R.guard("histories:%d sinks, %d statistics" % (ns, nd), where, "sinks receive, per report, every statistic as folded over the updates made while recording since the last reset, with the recorded time and counters",
                lambda ns=ns, nd=nd: check(list(fixed()) + [history(k * 7 + ns, False) for k in range(count // 3)], ns, nd))
    R.guard("late registration", where, "a statistic registered after initialisation is aggregated like the others", lambda: check([history(k + 500, True) for k in range(count // 3)], 1, 1))

    # --------------------------------------------------- what the statistics mean
    def value(kind, ups, hc, sec):
        """(value, is null) of a statistic updated with ups since the last reset"""
        tot = sum(ups)
        if kind == "average":
            return (tot / hc["iterations"], False) if hc["iterations"] else (None, True)
        if kind == "percentage":
            return (100 * tot / (hc["iterations"] * hc["weights"]), False) if hc["iterations"] and hc["weights"] and ups else (None, True)
        if kind == "rate":
            return (tot / sec, False) if ups else (None, True)
        return (ups[-1], False) if ups else (None, True)

    def meaning(make, kinds):
        s0, descs = make()
        names = []
        for d in descs:
            t = s0.get(d, "description")
            names.append(str(t.a[0]) if t.op == "str" else "")
        if set(names) != set(kinds):
            raise Unknown("statistics %s" % names)
        n = 0
        for k in range(12 if R.thorough else 5):
            r = random.Random(R.seed + k)
            s, descs = make()
            A = Aggregation(prog, 1, len(descs), s, descs)
            for i, (x, y) in enumerate(A.ids):
                if x is not y or not is_num(x):
                    raise Unknown("number of a statistic")
            A.do("Initialize")
            A.do("StartRecording")
            A.seen.clear()
            ups, it, w = [[] for _ in descs], 0, 0
            for step in range(60):
                i = r.randrange(len(descs))
                op = r.choice(["Snapshot"] if step % 20 == 19 else ["Update"] * 5 + ["work"]) if step < 59 else "Snapshot"
                if op == "Update":
                    v = r.randint(-20, 20) * r.choice([1, 3])
                    ups[i].append(v)
                    A.fn("Update", (A.ids[i][0], num(v)))
                elif op == "work":
                    it += r.randint(0, 2)
                    w = r.choice([0, 5, 8])
                    A.do("work", "iterations", num(it))
                    A.do("work", "weights", num(w))
                else:
                    A.fn("Snapshot")
                    rec = A.seen[-1]
                    if rec[0] != "Process" or len(rec) != 7 + len(descs):
                        return Verdict("different", "a snapshot is not delivered", {"given": [str(x)[:200] for x in A.seen]})
                    sec = r.randint(1, 9)
                    now = {x: num(0 if j % 2 == 0 else sec) for j, x in enumerate(sorted({x for x in walk(rec[2]) if x.op == "sym"}, key=str))}
                    m = {x: num(7) for x in walk(rec[2]) if x.op == "sym"}
                    ticks = [sym("now%d" % j) for j in range(1, 80)]
                    m = {}
                    for j, x in enumerate(ticks):
                        m[x] = num((j // 2) * 100 + (sec if j % 2 else 0))
                    for j, (name, (v, z)) in enumerate(zip(names, rec[7:])):
                        want, null = value(kinds[name], ups[j], {"iterations": it, "weights": w}, sec)
                        z = subst(z, m)
                        if z is not T and z is not F:
                            raise Unknown("whether '%s' is reported: %s" % (name, show(z)[:80]))
                        v = subst(v, m)
                        where_ = {"statistic": name, "updates since the reset": ups[j], "iterations": it, "weights": w, "seconds": sec}
                        if (z is T) != null:
                            return Verdict("different", "'%s' is %sreported" % (name, "not " if z is T else ""), dict(where_, term=show(rec[7+j][1])[:300]))
                        if not null:
                            if not is_num(v):
                                raise Unknown("value of '%s': %s" % (name, show(v)[:80]))
                            if abs(float(v.a[0]) - want) > 1e-9 * max(1, abs(want)):
                                return Verdict("different", "'%s' has another value" % name, dict(where_, expected=float(want), reported=float(v.a[0]), term=show(rec[7+j][0])[:300]))
                        n += 1
                    ups, it, w = [[] for _ in descs], 0, 0
            R.uses(*sorted(s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)

    def trainer():
        from training import Training, net
        t = Training(prog, net(), {})
        return t.s, t.descs

    def layer(cls, args, ptypes=None):
        def make():
            got = []

            def reg(E, fn, obj, args, n, st):
                got.append(E.ev(args[0], st) if isinstance(args[0], dict) else args[0])
                return num(len(got))
            s = Session(prog, opaque=(cls + "::Reset",), hooks={AG + "::RegisterStat": reg}, nonempty=False)
            s.E.concrete = True
            s.construct(cls, "layer", [s.vec("names", []) if x == "names" else x for x in args])
            return s, got
        return make
    f = prog.byq["Conv::Trainer::InitializeStats"][0]
    R.guard("meaning:trainer", "%s:%d" % (f["file"], f["line"]), "the loss is averaged over iterations, case counts are percentages of weights and iterations, throughput is per second; nothing measured is reported as nothing",
            lambda: meaning(trainer, {"Average Aggregate Loss": "average", **{"QuickProp Case %s Percentage" % c: "percentage" for c in "ABCM"}, "Pixel Throughput": "rate", "Frame Rate": "rate"}))
    for cls, args, kinds in (("Conv::ConfusionMatrixLayer", ["names", num(3)], ("Overall Recognition Rate", "Average Recognition Rate", "Average Intersection over Union")),
                             ("Conv::BinaryStatLayer", [num(5), num(-1), ONE], ("False Positive Rate", "False Negative Rate", "Precision", "Recall", "Accuracy", "F1 Value"))):
        f = [x for x in prog.fns.values() if x.get("ctor") and x.get("cls") == cls and x.get("body") is not None][0]
        R.guard("meaning:" + cls[6:], "%s:%d" % (f["file"], f["line"]), "the last submitted value is reported; nothing submitted since the reset is reported as nothing",
                lambda cls=cls, args=args, kinds=kinds: meaning(layer(cls, args), {k: "last" for k in kinds}))

    # -------------------------------------------------------------- CSV files
    def csv():
        cls = "Conv::CSVStatSink"
        n = 0
        for nst in (1, 2, 4):
            s = Session(prog, nonempty=False)
            s.E.concrete = True
            S_ = "std::basic_string<char>::"
            for q in ("begin", "end", "cbegin", "cend"):
                s.E.hooks[S_ + q] = lambda E, fn, obj, a, n, st, q=q: mk("call", "iter", mk("str", q), E.load(el(obj), st))
            s.E.hooks["std::remove_if"] = lambda E, fn, obj, a, n, st: mk("call", "removed", *[E.ev(x, st) for x in a])

            def erase(E, fn, obj, a, n, st):
                E.store(el(obj), mk("call", "erased", E.load(el(obj), st), *[E.ev(x, st) for x in a]), st, n)
                return addr(el(obj))
            s.E.hooks[S_ + "erase"] = erase
            sink = s.construct(cls, "sink", [])
            descs, stats, names = [], [], []
            for i in range(nst):
                d = s.construct(SD, "desc%d" % i, [])
                names.append("Statistic no. %d" % i)
                s.st.env[fld(el(d), "description")] = mk("str", names[-1])
                descs.append(d)
                x = s.construct(ST, "stat%d" % i, [])
                s.st.env[fld(el(x), "value")] = sym("v%d" % i)
                s.st.env[fld(el(x), "is_null")] = T if i % 3 == 1 else F
                stats.append(x)
            hc = s.construct(HC, "hc", [])
            for x in ("seconds_elapsed", "iterations", "epoch", "is_training"):
                s.st.env[fld(el(hc), x)] = sym(x)
            marks, streams = [], []
            s.run(s.method(cls, "Initialize", 1), this=sink, args={0: s.vec("descs", descs)}, cls=cls)
            for k in range(3):
                a = len(s.log)
                s.run(s.method(cls, "SetCurrentExperiment", 1), this=sink, args={0: mk("str", "run %d" % k)}, cls=cls)
                b = len(s.log)
                new = [e for e in s.log[a:b] if e.kind == "new" and "stream" in str(e.d)]
                if len(new) != 1:
                    raise Unknown("files opened for an experiment")
                streams.append(new[0].d.get("ptr") or new[0].d.get("ret"))
                for _ in range(k + 1):
                    s.run(s.method(cls, "Process", 2), this=sink, args={0: el(hc), 1: s.vec("stats", stats)}, cls=cls)
                marks.append((a, b, len(s.log)))
            good = {x: [t for e in s.log for c in e.pc for t in walk(c) if t.op == "call" and contains(t, lambda y: y is x) and str(t.a[0]).split("::")[-1] in ("good", "is_open", "fail", "operator bool", "operator!", "bad")] for x in streams}
            for open_ in range(8):
                m = {}
                for k, x in enumerate(streams):
                    for t in good[x]:
                        pos = str(t.a[0]).split("::")[-1] in ("good", "is_open", "operator bool")
                        m[t] = T if bool(open_ >> k & 1) == pos else F
                for k, (a, b, c) in enumerate(marks):
                    isopen = bool(open_ >> k & 1)
                    text, prec = [], 6
                    fname = "".join(str(e.d["val"].a[0]) for e in s.log[a:b] if e.kind == "out" and e.d["stream"].op == "addr" and e.d["val"].op == "str")
                    for i in range(a, c):
                        e = s.log[i]
                        if subst(e.guard(), m) is F:
                            continue
                        if e.kind != "out" or e.d["stream"].op == "addr":
                            continue
                        to = subst(e.d["stream"], m)
                        if to is NULL:
                            return Verdict("different", "writes through a null stream", {"at": e.where(), "opened": isopen})
                        if subst(e.guard(), m) is not T:
                            raise Unknown("condition on writing: %s %s" % (show(e.guard())[:120], [show(t) for x in streams for t in good[x]][:6]))
                        if not isopen or to is not streams[k]:
                            return Verdict("different", "written to a file that could not be opened or belongs to another experiment", {"at": e.where()})
                        v = e.d["val"]
                        if v.op == "call" and "setprecision" in str(v.a[0]):
                            if not is_num(v.a[1]):
                                raise Unknown("precision")
                            prec = int(v.a[1].a[0])
                        elif "flush" in show(v):
                            text.append("<flush>")
                        elif "endl" in show(v):
                            text += ["\n", "<flush>"]
                        elif v.op == "str":
                            text.append(str(v.a[0]))
                        elif is_num(v) and "char" in (e.d.get("t") or ""):
                            text.append(chr(int(v.a[0])))
                        else:
                            if prec < 16 and "double" in (e.d.get("t") or ""):
                                return Verdict("different", "values lose precision", {"at": e.where(), "digits": prec})
                            text.append(v)
                    if not isopen:
                        continue
                    lines, cur = [[[]]], None
                    for x in text:
                        if isinstance(x, str) and x != "<flush>":
                            for j, part in enumerate(x.split("\n")):
                                if j:
                                    lines.append([[]])
                                for l, p in enumerate(part.split(",")):
                                    if l:
                                        lines[-1].append([])
                                    if p:
                                        lines[-1][-1].append(p)
                        elif isinstance(x, str):
                            cur = len(lines)
                        else:
                            lines[-1][-1].append(x)
                    if cur != len(lines) or lines[-1] != [[]] or len(lines) != k + 3:
                        return Verdict("different", "not one complete line per report, all of them flushed", {"lines": [str(x)[:200] for x in lines]})
                    head, rows = lines[0], lines[1:-1]
                    if [x[0] if len(x) == 1 else None for x in head[:4]] != ["IsTraining", "Epoch", "Iterations", "SecondsElapsed"]:
                        return Verdict("different", "header of the fixed columns", {"header": str(head)[:300]})
                    if len(head) != 4 + nst or any(len(x) != 1 or not names_stat(x[0], names[i]) for i, x in enumerate(head[4:])):
                        return Verdict("different", "the header does not name the statistics in order", {"header": [show(x[0])[:80] if x and not isinstance(x[0], str) else str(x) for x in head]})
                    want = [[ite(sym("is_training"), mk("str", "1"), mk("str", "0"))], [sym("epoch")], [sym("iterations")], [sym("seconds_elapsed")]]
                    want += [[] if i % 3 == 1 else [sym("v%d" % i)] for i in range(nst)]
                    for row in rows:
                        ok = len(row) == len(want) and all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(row[1:], want[1:]))
                        ok = ok and len(row[0]) == 1 and flag(row[0][0], T) == "1" and flag(row[0][0], F) == "0"
                        if not ok:
                            return Verdict("different", "a row does not hold the reported values in the header's order, missing ones empty", {"row": [[show(x) if isinstance(x, Term) else x for x in c] for c in row]})
                        n += 1
                    if fname != "csv/run %d.csv" % k:
                        return Verdict("different", "name of the file", {"name": fname})
            R.uses(*sorted(s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)

    def names_stat(x, name):
        if isinstance(x, str):
            return x == "".join(c for c in name if c.isalnum())
        return {str(t.a[0]) for t in walk(x) if t.op == "str" and "Statistic" in str(t.a[0])} == {name}

    def flag(x, v):
        for t in ([] if isinstance(x, str) else [y for y in walk(x) if y is sym("is_training")]):
            x = subst(x, {t: v})
        x = x.a[0] if isinstance(x, Term) and x.op in ("str",) else (int(x.a[0]) if isinstance(x, Term) and is_num(x) else x)
        return {"1": "1", "0": "0", 1: "1", 0: "0", 49: "1", 48: "0"}.get(x, str(x))
    f = prog.byq["Conv::CSVStatSink::Process"][0]
    R.guard("csv", "%s:%d" % (f["file"], f["line"]), "per experiment one file with a header and one flushed line per report, columns in the same order, missing values empty, nothing written when the file cannot be opened", csv)
