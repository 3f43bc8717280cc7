"""A trainer on a bounded network: layers are abstract, parameters have symbolic
shapes and contents, every backward pass writes fresh symbolic gradients."""
from terms import *
from program import program, AnalysisError
from compare import Unknown, Play, cptr, cnum, asint, Poison
from graphs import Graph, Node, GR, C_, T_, LAYER, LOSS, TRAIN, STAT, PLAIN

TR, TS, AG = "Conv::Trainer", "Conv::TrainerSettings", "Conv::StatAggregator"
VALUES = {"GetLabelWidth": "LW", "GetLabelHeight": "LH", "GetBatchSize": "BS", "GetLossSamplingProbability": "LP"}
NUMERIC = ("learning_rate", "l1_weight", "l2_weight", "exponent", "gamma", "momentum", "mu", "eta")


def net(losses=1, stats=1, trainings=1):
    sh = [Node("in%d" % i if i else "in", is_input=True, nout=2, cls=TRAIN) for i in range(trainings)]
    sh += [Node("a", [("in", 0)]), Node("b", [("a", 0)]), Node("c", [("b", 0)])]
    sh += [Node("loss%d" % i, [("c", 0), ("in", 1)], cls=LOSS, is_output=True) for i in range(losses)]
    sh += [Node("stat%d" % i, [("c", 0), ("in", 1)], cls=STAT) for i in range(stats)]
    return sh


PARAMS = {"a": ["wa", "ba"], "b": [], "c": ["wc"]}


class Training:
    def __init__(self, prog, shape, settings, params=PARAMS, recording=True, ntrain=7, ntest=9, batch=2, order=None):
        self.passes, self.losses, self.events = 0, {}, []
        self.calls = {}
        self.stats, self.descs = [], []
        self.params = params
        self.ntrain, self.ntest, self.batch = ntrain, ntest, batch
        ex = {}
        for f, v in VALUES.items():
            ex["Conv::TrainingLayer::" + f] = self.value(sym(v) if f != "GetBatchSize" or batch is None else num(batch))
        ex["Conv::TrainingLayer::GetSamplesInTrainingSet"] = self.value(num(ntrain))
        ex["Conv::TrainingLayer::GetSamplesInTestingSet"] = self.value(num(ntest))
        ex["Conv::TrainingLayer::SetTestingMode"] = self.event("SetTestingMode")
        for f in ("UpdateAll", "Print", "Reset", "SetDisabled"):
            ex["Conv::StatLayer::" + f] = self.event(f)
        ex[AG + "::RegisterStat"] = self.register
        ex[AG + "::Update"] = self.update
        ex[AG + "::Snapshot"] = self.event("Snapshot")
        G = self.G = Graph(prog, shape, extra=ex)
        s = self.s = G.s
        for w in ("FeedForward", "BackPropagate"):
            s.E.hooks[LAYER + w] = self.layer_pass(w)
        s.E.hooks["Conv::LossFunctionLayer::CalculateLossFunction"] = self.loss
        self.agg = s.construct(AG, "agg", [])
        s.st.env[mk("gvar", "Conv::System::stat_aggregator")] = self.agg
        s.st.env[mk("gvar", TR + "::stats_are_initialized_")] = F
        s.st.env[fld(el(self.agg), "state_")] = self.enum(prog, "RECORDING" if recording else "STOPPED")
        G.add(order)
        self.tensor = {}
        for l, ps in params.items():
            lv = fld(el(G.layer[l]), "parameters_")
            for i, p in enumerate(ps):
                self.tensor[p] = s.construct(C_, p, [sym(p + x) for x in "SWHM"])
                s.st.env[el(mk("vdata", lv), num(i))] = self.tensor[p]
            s.st.env[fld(lv, "#size")] = num(len(ps))
        for n in shape:
            if n.name not in params:
                s.st.env[fld(fld(el(G.layer[n.name]), "parameters_"), "#size")] = ZERO
            s.st.env[fld(el(G.layer[n.name]), "local_lr_")] = sym("lr_" + n.name)
        st = s.construct(TS, "settings", [])
        for f in prog.records[TS]["fields"]:
            if f["name"] in NUMERIC:
                s.st.env[fld(el(st), f["name"])] = sym(f["name"])
        for k, v in settings.items():
            s.st.env[fld(el(st), k)] = v
        self.start = len(s.log)
        self.t = s.construct(TR, "trainer", [el(G.g), mk("val", el(st))])

    @staticmethod
    def enum(prog, name):
        return num({"STOPPED": 0, "RECORDING": 1, "INIT": 2}[name])

    # ------------------------------------------------------------- hooks
    def note(self, E, st, n, what, layer=None, a=()):
        if E.loops or [c for c in st.pc if c is not T]:
            raise Unknown("%s depends on something the settings do not determine" % what)
        E.emit("ev", st, n, what=what, layer=layer, a=a, testing=self.testing(E, st))

    def testing(self, E, st):
        f = E.prog.byq["Conv::NetStatus::IsTesting"][0]
        return E.call_fn(f, self.G.g, [], {}, st)

    def value(self, v):
        return lambda E, fn, obj, args, n, st: v

    def event(self, what):
        def h(E, fn, obj, args, n, st):
            v = tuple(E.ev(x, st) if isinstance(x, dict) else x for x in args)
            self.note(E, st, n, what, obj, v)
            return ZERO
        return h

    def layer_pass(self, what):
        def h(E, fn, obj, args, n, st):
            self.note(E, st, n, what, obj)
            l = self.G.bylayer[obj]
            if what == "BackPropagate":
                k = self.calls[l] = self.calls.get(l, 0) + 1
                copy = program("spec").one("spec::write_all")
                for p in self.params.get(l, ()):
                    d = fld(el(self.tensor[p]), "delta")
                    E.call_fn(copy, None, [sym("G%d_%s" % (k, p)), E.load(fld(d, "data_ptr_"), st), E.load(fld(d, "elements_"), st)], n, st)
            return ZERO
        return h

    def loss(self, E, fn, obj, args, n, st):
        l = self.G.bylayer[obj]
        k = self.losses[l] = self.losses.get(l, 0) + 1
        self.note(E, st, n, "loss", obj)
        return sym("L%d_%s" % (k, l))

    def register(self, E, fn, obj, args, n, st):
        d = E.ev(args[0], st) if isinstance(args[0], dict) else args[0]
        t = E.load(fld(el(d), "description"), st)
        if t.op != "str":
            raise Unknown("description of a statistic is not a literal")
        self.stats.append(str(t.a[0]))
        self.descs.append(d)
        i = num(99 + len(self.stats))
        st.env[fld(el(d), "stat_id")] = i
        return i

    def update(self, E, fn, obj, args, n, st):
        v = tuple(E.ev(x, st) if isinstance(x, dict) else x for x in args)
        if not is_num(v[0]) or not 0 <= int(v[0].a[0]) - 100 < len(self.stats):
            raise Unknown("statistic that is updated is not known")
        E.emit("update", st, n, stat=self.stats[int(v[0].a[0]) - 100], val=v[1])
        return ZERO

    # -------------------------------------------------------------- calls
    def call(self, name, *args):
        f = self.s.method(TR, name, len(args))
        k = len(self.s.log)
        self.s.run(f, this=self.t, args=dict(enumerate(args)), cls=TR)
        return self.s.log[k:]

    def effects(self):
        return self.s.log[self.start:]

    def data(self, p, which="data"):
        return self.s.get(self.tensor[p], which, "data_ptr_")
