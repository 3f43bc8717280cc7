"""The training tool: which networks, data sets and trainers it sets up for a configuration, and which commands it runs."""
from terms import *
from program import program, NeverReturns
from session import Session
from compare import Verdict, Unknown
import texts
from texts import text, lit, render
from rules import p18, p20, p28
from rules.p18 import Bad, var, T_

MIN = 3
FAC, F0, PDS, DS, D0, G_, TR, SA = "Conv::ConfigurableFactory", "Conv::Factory", "Conv::TensorStreamPatchDataset", "Conv::TensorStreamDataset", "Conv::Dataset", "Conv::NetGraph::", "Conv::Trainer::", "Conv::StatAggregator::"
ARGV = ["trainNetwork", "my/data.set", "nets/some.net", "run.script"]
BATCH, CLASSES_PATCH, WIDTH, HEIGHT, MAPS = 3, (13, 11), 20, 14, 2
PARAMS, OUTPUTS = 3, 2
FLOATS = ("learning_rate", "l1_weight", "l2_weight", "exponent", "gamma", "momentum", "mu", "eta")


class Graph:
    def __init__(self):
        self.nodes, self.built, self.initialised, self.weights = [], 0, False, False


class Train(p28.Make):
    def __init__(self, prog, patch=False, classes=4, lines=None, missing=None, argv=None, argc=None, incomplete=None, typed=(), samples=True, end=True, sampling=True):
        p18.Tool.__init__(self, prog)
        s = self.s
        self.patch, self.n, self.missing, self.incomplete, self.samples = patch, classes, missing, incomplete, samples
        H = s.E.hooks
        self.line = H["std::getline"]
        self.argv = list(argv or ARGV)
        self.files = {} if lines is None else {"run.script": "\n".join(lines) + ("\n" if end else "")}
        self.typed, self.typed_at = list(typed), 0
        self.graphs, self.factories, self.datasets, self.trainers, self.layers, self.shadow, self.commands, self.sinks, self.loaded = {}, {}, {}, {}, {}, {}, [], [], []
        self.stats_ready, self.checked = False, None
        for q in list(H):
            if q.startswith((T_ + "::", DS + "::", D0 + "::", FAC + "::")) and q not in ("Conv::Tensor::Resize",):
                del H[q]
        hooks = [(FAC + "::ConfigurableFactory", self.factory), (DS + "::CreateFromConfiguration", self.whole), (PDS + "::CreateFromConfiguration", self.patches), ("Conv::DatasetInputLayer::DatasetInputLayer", self.fed_layer),
                 ("Conv::InputLayer::InputLayer", self.fixed_layer), ("Conv::BinaryStatLayer::BinaryStatLayer", self.binary), ("Conv::ConfusionMatrixLayer::ConfusionMatrixLayer", self.confusion),
                 (G_ + "AddNode", self.add_node), (G_ + "GetOutputNodes", self.outputs), (G_ + "Initialize", self.initialize), (G_ + "InitializeWeights", self.weights), (G_ + "GetParameters", self.parameters),
                 (T_ + "::Shadow", self.shadows), (TR + "Trainer", self.trainer), (SA + "RegisterSink", self.sink), (SA + "Initialize", self.stats), ("parseCommand", self.command),
                 ("Conv::GradientTester::TestGradient", self.gradient), (TR + "~Trainer", self.nothing), ("Conv::System::Init", self.nothing), ("Conv::CSVStatSink::CSVStatSink", self.nothing), ("Conv::ConsoleStatSink::ConsoleStatSink", self.nothing), ("Conv::CSVStatSink::~CSVStatSink", self.nothing)]
        for c in (FAC, F0):
            hooks += [(c + "::InitOptimalSettings", self.prepared), (c + "::optimal_settings", self.settings), (c + "::method", self.method), (c + "::patchsizex", lambda o, v, l: num(CLASSES_PATCH[0])), (c + "::patchsizey", lambda o, v, l: num(CLASSES_PATCH[1])),
                      (c + "::AddLayers", self.add_layers)]
        for c in (PDS, DS, D0):
            hooks += [(c + "::GetClasses", lambda o, v, l: num(self.n)), (c + "::GetClassNames", self.names), (c + "::GetWidth", lambda o, v, l: num(WIDTH)), (c + "::GetHeight", lambda o, v, l: num(HEIGHT)),
                      (c + "::GetInputMaps", lambda o, v, l: num(MAPS)), (c + "::GetLabelMaps", lambda o, v, l: num(self.n)), (c + "::GetTestingSample", self.sample)]
        for q, f in hooks:
            H[q] = self.plain(f, q)
        H["std::getline"] = self.getline
        for k in ("eof", "good", "fail", "bad", "operator bool", "operator!"):
            H["std::basic_ios<char>::" + k] = self.stream_state(k)
        a = var("arguments")
        for i, x in enumerate(self.argv):
            s.st.env[el(padd(addr(el(a)), num(i)))] = text(x)
        self.args = {0: num(len(self.argv) if argc is None else argc), 1: addr(el(a))}

    # lines come from the script or are typed
    def is_cin(self, lv):
        return lv.op == "gvar" and str(lv.a[0]).split("::")[-1] == "cin" or lv is el(addr(var("std::cin")))

    def getline(self, E, fn, obj, args, n, st):
        lv = E.lv_or_temp(args[0], st)
        if not self.is_cin(lv):
            self.read_lines = getattr(self, "read_lines", 0) + 1
            if self.read_lines > sum(f.count("\n") for f in self.files.values()) + 5:
                raise Bad("the tool goes on after the end of the script")
            return p28.Make.getline(self, E, fn, obj, args, n, st)
        self.typed_at += 1
        if self.typed_at > len(self.typed) + 1:
            raise Bad("the tool goes on although nothing more can be typed")
        E.store(E.lv(args[1], st), text(self.typed[self.typed_at - 1]) if self.typed_at <= len(self.typed) else lit(""), st, n)
        return addr(lv)

    def stream_state(self, k):
        h0 = p28.Make.stream_state(self, k)

        def h(E, fn, obj, args, n, st):
            if not self.is_cin(el(obj)):
                return h0(E, fn, obj, args, n, st)
            e = T if self.typed_at > len(self.typed) else F
            return {"eof": e, "fail": e, "bad": F, "good": not_(e), "operator bool": not_(e), "operator!": e}[k]
        return h

    def load(self, lv):
        return self.s.E.load(lv, self.st)

    def obj(self, p, table, what):
        for k in (p, addr(el(p))):
            if k in table:
                return table[k]
        for k in table:
            if addr(el(k)) is p:
                return table[k]
        raise Unknown("another %s: %s" % (what, show(p)[:60]))

    # factories
    def factory(self, o, v, l):
        self.same("the file the net is read from", self.stream(l[0]), self.argv[2])
        if self.missing == self.argv[2]:
            raise Bad("the net is read although its file cannot be opened")
        t = v[2] if len(v) > 2 else F
        if t is not T and t is not F:
            raise Unknown("kind of net %s" % show(t)[:60])
        self.s.E.dyn[o] = FAC
        self.factories[o] = {"training": t is T, "prepared": False, "name": "f%d" % len(self.factories)}

    def prepared(self, o, v, l):
        self.obj(o, self.factories, "factory")["prepared"] = True

    def method(self, o, v, l):
        f = self.obj(o, self.factories, "factory")
        return p20.enum(self.prog, "PATCH" if self.patch and f["training"] else "FCN")

    def settings(self, o, v, l):
        f = self.obj(o, self.factories, "factory")
        lv = mk("gvar", "settings of %s" % f["name"])
        for k in FLOATS + ("epoch_training_ratio", "testing_ratio"):
            self.st.env[fld(lv, k)] = sym("%s_%s" % (k, f["name"]))
        for k, x in (("optimization_method", sym("method_" + f["name"])), ("stats_during_training", T), ("pbatchsize", num(BATCH)), ("sbatchsize", num(5)), ("iterations", sym("iterations_" + f["name"]))):
            self.st.env[fld(lv, k)] = x
        return mk("val", lv)

    def add_layers(self, o, v, l):
        f = self.obj(o, self.factories, "factory")
        g = self.obj(addr(l[0]) if l[0] is not None else v[0], self.graphs, "graph") if self.known(l[0]) else None
        c = l[1] if l[1] is not None else None
        if c is None:
            if v[1].op != "val" and v[1].op != "obj":
                raise Unknown("connection %s" % show(v[1])[:60])
            c = v[1].a[0] if v[1].op == "val" else None
        if c is None:
            raise Unknown("connection of the first layer")
        nodes = [n for n in g.nodes]
        node, buf = self.load(fld(c, "node")), self.load(fld(c, "buffer"))
        if len(nodes) != 1 or not self.same_ptr(node, nodes[0]):
            raise Bad("the layers are not connected to the input")
        if buf is not ZERO:
            raise Bad("the layers are connected to output %s of the input" % show(buf))
        x = self.s.E.simplify(v[2], self.st)
        if x is not num(self.n):
            raise Bad("the net is built for %s classes" % show(x)) if is_num(x) else Unknown("classes %s" % show(x)[:60])
        g.factory = f
        g.built += 1
        self.made = getattr(self, "made", 0) + 1
        for i in range(OUTPUTS):
            self.st.env[el(mk("vdata", g.out), num(i))] = addr(var("%s output %d" % (g.name, i)))
        self.st.env[fld(g.out, "#size")] = num(OUTPUTS)
        return F if self.incomplete == self.made else T

    def same_ptr(self, a, b):
        return a is b or addr(el(a)) is b or a is addr(el(b))

    # graphs
    def known(self, lv):
        return self.graph(addr(lv)) is not None

    def graph(self, p):
        for k in (p, addr(el(p))):
            if k in self.graphs:
                return self.graphs[k]
        for k in self.graphs:
            if addr(el(k)) is p:
                return self.graphs[k]
        g = self.graphs[p] = Graph()
        g.name = ("first", "second", "third", "fourth")[len(self.graphs) - 1]
        g.out = mk("gvar", "outputs of the %s net" % g.name)
        self.st.env[fld(g.out, "#size")] = ZERO
        return g

    def add_node(self, o, v, l):
        g = self.graph(o)
        if g.initialised:
            raise Bad("a node is added to the %s net after its initialisation" % g.name)
        g.nodes.append(v[0])

    def outputs(self, o, v, l):
        return addr(self.graph(o).out)

    def initialize(self, o, v, l):
        g = self.graph(o)
        if not g.built:
            raise Bad("the %s net is initialised without layers" % g.name)
        self.check_graph(g)
        g.initialised = True

    def weights(self, o, v, l):
        g = self.graph(o)
        if not g.initialised:
            raise Bad("weights are drawn before the %s net is initialised" % g.name)
        if g.name != "first":
            raise Bad("weights are drawn for the %s net" % g.name)
        g.weights = True

    def check_graph(self, g):
        first = g.nodes[0]
        if self.load(fld(el(first), "is_input")) is not T:
            raise Bad("the input node of the %s net is not marked as input" % g.name)
        g.input = self.layer_of(first)
        if g.input[0] not in ("fed", "fixed"):
            raise Bad("the %s net begins with a %s layer" % (g.name, g.input[0]))
        todo = [addr(var("%s output %d" % (g.name, i))) for i in range(OUTPUTS)]
        for node in g.nodes[1:]:
            L = self.layer_of(node)
            if L[0] != ("binary" if self.n == 1 else "confusion"):
                raise Bad("statistics of kind %s for %d classes" % (L[0], self.n))
            lv = fld(el(node), "input_connections")
            lv = self.s.E.vec(lv, self.st)
            k = self.number(self.load(fld(lv, "#size")), "inputs of the statistics")
            con = [el(mk("vdata", lv), num(i)) for i in range(k)]
            con = [tuple(self.load(fld(c, x)) for x in ("node", "buffer", "backprop")) for c in con]
            if k != 3:
                raise Bad("the statistics have %d inputs" % k)
            out = [t for t in todo if self.same_ptr(con[0][0], t)]
            if not out or con[0][1] is not ZERO:
                raise Bad("statistics of %s, output %s" % (show(con[0][0])[:40], show(con[0][1])))
            todo.remove(out[0])
            for i, (what, b) in ((1, ("labels", 1)), (2, ("weights", 3))):
                if not self.same_ptr(con[i][0], first) or con[i][1] is not num(b):
                    raise Bad("the statistics' %s are output %s of %s" % (what, show(con[i][1]), show(con[i][0])[:40]))
            if con[0][2] is not F:
                raise Bad("the statistics take part in backpropagation")
        if todo:
            raise Bad("%d outputs of the %s net have no statistics" % (len(todo), g.name))

    def layer_of(self, node):
        p = self.load(fld(el(node), "layer"))
        for k in self.layers:
            if self.same_ptr(p, k):
                return self.layers[k]
        raise Unknown("layer %s" % show(p)[:60])

    def parameters(self, o, v, l):
        g = self.graph(o)
        if not g.initialised:
            raise Bad("the parameters of the %s net are used before its initialisation" % g.name)
        E, st = self.s.E, self.st
        lv = E.vec(l[0], st)
        if E.load(fld(lv, "#size"), st) is not ZERO:
            raise Unknown("parameters are added to others")
        for i in range(PARAMS):
            st.env[el(mk("vdata", lv), num(i))] = addr(var("%s parameter %d" % (g.name, i)))
        st.env[fld(lv, "#size")] = num(PARAMS)

    def shadows(self, o, v, l):
        places = {}
        for w in ("first", "second"):
            for i in range(PARAMS):
                for k in ("data", "delta"):
                    x = var("%s parameter %d" % (w, i))
                    places[addr(fld(x, k))] = places[addr(fld(el(addr(x)), k))] = (w, i, k)
        a, b = o, addr(l[0])
        if a not in places or b not in places:
            raise Unknown("tensor %s shadows %s" % (show(a)[:60], show(b)[:60]))
        self.shadow[places[a]] = places[b]

    # data sets
    def read_set(self, l, v, at):
        self.same("the file the data set is read from", self.stream(l[0]), self.argv[1])
        if self.missing == self.argv[1]:
            raise Bad("the data set is read although its file cannot be opened")
        sel = self.s.E.simplify(v[at], self.st)
        names = {p20.enum(self.prog, k): k for k in ("LOAD_TRAINING_ONLY", "LOAD_TESTING_ONLY", "LOAD_BOTH")}
        if sel not in names:
            raise Unknown("selection %s" % show(sel)[:60])
        if v[1] is not F:
            raise Bad("the data set is not loaded") if v[1] is T else Unknown("whether the data set is loaded: %s" % show(v[1])[:60])
        return names[sel]

    def whole(self, o, v, l):
        return self.new_set(("whole", self.read_set(l, v, 2)), DS)

    def patches(self, o, v, l):
        sel = self.read_set(l, v, 2)
        return self.new_set(("patches", sel, self.number(v[3], "width of patches"), self.number(v[4], "height of patches")), PDS)

    def new_set(self, d, cls):
        p = addr(var("data set %d" % len(self.datasets)))
        self.s.E.dyn[p] = cls
        self.datasets[p] = d
        return p

    def names(self, o, v, l):
        lv = mk("gvar", "class names")
        self.st.env[fld(lv, "#size")] = num(self.n)
        for i in range(self.n):
            self.st.env[el(mk("vdata", lv), num(i))] = lit("class%d" % i)
        return mk("val", lv)

    def sample(self, o, v, l):
        self.obj(o, self.datasets, "data set")
        a, b = self.number(v[4], "sample"), self.number(v[5], "number of the sample")
        lv = l[:4]
        if any(x is None for x in lv):
            raise Unknown("tensors of a sample")
        self.loaded.append((tuple(addr(x) for x in lv), a, b))
        return T if self.samples is True or self.samples != a else F

    # layers
    def fed_layer(self, o, v, l):
        d = self.obj(addr(l[0]), self.datasets, "data set")
        p = self.s.E.simplify(v[2], self.st)
        if not is_num(p):
            raise Unknown("sampling %s" % show(p)[:60])
        self.layers[o] = ("fed", d, self.number(v[1], "batch size"), float(p.a[0]))

    def fixed_layer(self, o, v, l):
        if len(l) < 4:
            raise Bad("the input has no labels or weights")
        self.layers[o] = ("fixed",) + tuple((addr(x), self.shape(x)) for x in (l[0], l[1], l[2], l[3]))

    def binary(self, o, v, l):
        a = [self.s.E.simplify(x, self.st) for x in v]
        if len(a) != 3 or [x for x in a if not is_num(x)]:
            raise Unknown("thresholds of the statistics")
        if not (a[0].a[0] >= 1 and a[1].a[0] < a[2].a[0]):
            raise Bad("%s thresholds from %s to %s" % tuple(show(x) for x in a))
        self.layers[o] = ("binary",)
        self.late("statistics layer")

    def confusion(self, o, v, l):
        if self.number(v[1], "classes") != self.n:
            raise Bad("statistics for %s classes" % show(v[1]))
        x = l[0] if l[0] is not None else (v[0].a[0] if v[0].op == "val" else None)
        if x is None:
            raise Unknown("names of the classes")
        x = self.s.E.vec(x, self.st)
        k = self.load(fld(x, "#size"))
        got = [render(texts.as_text(self.s.E, self.load(el(mk("vdata", x), num(i))), self.st)) for i in range(int(k.a[0]))] if is_num(k) else None
        if got is None:
            raise Unknown("names of the classes")
        self.same("names of the classes", got, ["class%d" % i for i in range(self.n)])
        self.layers[o] = ("confusion",)
        self.late("statistics layer")

    def late(self, what):
        if self.stats_ready:
            raise Bad("a %s is made after the statistics were set up" % what)

    # trainers and statistics
    def trainer(self, o, v, l):
        g = self.graph(addr(l[0]))
        if not g.initialised:
            raise Bad("a trainer is made for the %s net before its initialisation" % g.name)
        c = l[1] if l[1] is not None else (v[1].a[0] if v[1].op == "val" else None)
        if c is None:
            raise Unknown("settings of the trainer: %s" % show(v[1])[:60])
        self.trainers[o] = (g, {k: self.s.E.simplify(self.load(fld(c, k)), self.st) for k in FLOATS + ("epoch_training_ratio", "testing_ratio", "optimization_method", "pbatchsize", "sbatchsize", "iterations", "stats_during_training")})
        self.late("trainer")

    def sink(self, o, v, l):
        if self.stats_ready:
            raise Bad("a sink is registered after the statistics were set up")
        self.sinks.append(v[0])
        return num(len(self.sinks) - 1)

    def stats(self, o, v, l):
        self.stats_ready = True

    # commands
    def command(self, o, v, l):
        if not self.commands:
            self.ready(l, v)
        else:
            self.same("the objects the commands work on", [addr(x) for x in l[:4]] + [v[4]], self.first_call)
        c = render(texts.as_text(self.s.E, self.load(l[5]) if l[5] is not None else v[5], self.st))
        self.commands.append(c)
        return F if c in ("q", "quit") else T

    def trainer_of(self, lv):
        return self.obj(addr(lv), self.trainers, "trainer")

    def ready(self, l, v):
        self.first_call = [addr(x) for x in l[:4]] + [v[4]]
        if v[4] is not (T if self.patch else F):
            raise Bad("whether there is a separate testing net: %s" % show(v[4])) if v[4] in (T, F) else Unknown("kind of training %s" % show(v[4])[:60])
        g, tg = self.graph(addr(l[0])), self.graph(addr(l[1]))
        (a, s), (b, ts) = self.trainer_of(l[2]), self.trainer_of(l[3])
        if a is not g or b is not tg:
            raise Bad("a trainer works on another net")
        if (g is tg) is self.patch:
            raise Bad("training and testing net are %s" % ("the same" if self.patch else "different"))
        if not g.initialised or not g.weights:
            raise Bad("commands are run before the net is initialised and its weights are drawn")
        if not tg.initialised:
            raise Bad("commands are run before the testing net is initialised")
        if not self.stats_ready or len(set(self.sinks)) != 2 or len(self.sinks) != 2:
            raise Bad("commands are run with %d sinks, statistics %s" % (len(self.sinks), "set up" if self.stats_ready else "not set up"))
        self.net_for(g, ("patches", "LOAD_TRAINING_ONLY") + CLASSES_PATCH if self.patch else ("whole", "LOAD_BOTH"), BATCH, None if not self.patch else 1., True)
        if self.patch:
            self.net_for(tg, ("whole", "LOAD_TESTING_ONLY"), 1, 1., False)
            want = {("second", i, k): ("first", i, k) for i in range(PARAMS) for k in ("data", "delta")}
            names = {g.name: "first", tg.name: "second"}
            got = {(names.get(k[0]), k[1], k[2]): (names.get(x[0]), x[1], x[2]) for k, x in self.shadow.items()}
            if got != want:
                raise Bad("parameters of the testing net that are not those of the training net: %s" % (sorted(map(str, set(want) - set(k for k, x in got.items() if want.get(k) == x))) or sorted(map(str, got.items()))))
        elif self.shadow:
            raise Bad("parameters are shared although there is one net only")
        f = g.factory["name"]
        if not g.factory["prepared"]:
            raise Bad("the training settings are used before they are worked out")
        for k in FLOATS:
            if s[k] is not sym("%s_%s" % (k, f)):
                raise Bad("setting %s of training is %s" % (k, show(s[k])[:60]))
        for k, x in (("epoch_training_ratio", ONE), ("testing_ratio", ONE), ("pbatchsize", num(BATCH)), ("sbatchsize", num(5)), ("optimization_method", sym("method_" + f)), ("iterations", sym("iterations_" + f)), ("stats_during_training", T)):
            if s[k] is not x:
                raise Bad("setting %s of training is %s" % (k, show(s[k])[:60]))
        if self.patch and (ts["pbatchsize"], ts["sbatchsize"]) != (ONE, ONE):
            raise Bad("testing uses batches of %s, %s of them in a row" % (show(ts["pbatchsize"]), show(ts["sbatchsize"])))

    def net_for(self, g, data, batch, p, training):
        if g.built != 1:
            raise Bad("the layers of the %s net are added %d times" % (g.name, g.built))
        if g.factory["training"] is not training:
            raise Bad("the %s net is built for %s" % (g.name, "training" if g.factory["training"] else "testing"))
        k, d, b, q = g.input if g.input[0] == "fed" else (None,) * 4
        if k is None:
            raise Bad("the %s net is not fed from the data set" % g.name)
        self.same("data of the %s net" % g.name, d, data)
        self.same("batch size of the %s net" % g.name, b, batch)
        if p is not None and q != p or not 0 < q <= 1:
            raise Bad("share of the pixels the %s net learns from: %g" % (g.name, q))

    def gradient(self, o, v, l):
        if self.commands or self.checked is not None:
            raise Bad("gradients are tested twice or after commands")
        self.checked = True
        g = self.graph(addr(l[0]))
        if not g.initialised or not g.weights:
            raise Bad("gradients are tested before the net is initialised and its weights are drawn")
        if g.input[0] != "fixed":
            raise Bad("gradients are tested on changing samples")
        ts = g.input[1:]
        w, h = (1, 1) if self.patch else (WIDTH, HEIGHT)
        want = [(BATCH, WIDTH, HEIGHT, MAPS), (BATCH, w, h, self.n), (BATCH, w, h, 2), (BATCH, w, h, 1)]
        for what, (p, sh), x in zip(("data", "labels", "helper", "weights"), ts, want):
            self.same("samples, width, height and maps of the %s" % what, sh, x)
        self.same("samples that are loaded", [(tuple(p for p, sh in ts), i, i) for i in range(BATCH)], sorted(self.loaded, key=lambda x: x[1]))
        if [d for d in self.datasets.values() if d[1] != "LOAD_BOTH"]:
            raise Bad("the data set has no testing samples")

    def run(self):
        f = [g for g in self.prog.byq["main"] if g["file"].endswith("/trainNetwork.cpp")][0]
        try:
            r = self.s.run(f, args=self.args)
        except NeverReturns:
            return False, []
        for e in r.exits:
            if e.kind == "throw":
                raise Bad("an exception ends the tool")
        return is_num(r.ret) and r.ret.a[0] == 0, r.effects


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    f = [g for g in prog.byq["main"] if g["file"].endswith("/trainNetwork.cpp")][0]
    where = "%s:%d" % (f["file"], f["line"])
    R.assumptions += ["factories, data sets, graphs, trainers and statistics are abstract: the calls they get and the state at the first command are checked (what they do is decided elsewhere)", "%d parameter sets, %d outputs, batch size %d; training settings are unknown" % (PARAMS, OUTPUTS, BATCH)]
    SCRIPT = ["train epochs=2", "", "test", "save file=x"]

    def go(kw, commands, what, gradient=False):
        t = Train(prog, **kw)
        try:
            ok, eff = t.run()
            R.uses(*t.s.fns)
            R.uses(*sorted(t.s.E.inlined))
            got = list(t.commands)
            if commands is None:
                if ok:
                    raise Bad("the tool ends as if successful")
                if got:
                    raise Bad("the command '%s' is run" % got[0])
                if t.checked and gradient is not None:
                    raise Bad("gradients are tested")
                return None
            if not ok:
                raise Bad("the tool ends without success")
            if gradient:
                if not t.checked:
                    raise Bad("gradients are not tested")
                if got:
                    raise Bad("the command '%s' is run" % got[0])
                return None
            if t.checked:
                raise Bad("gradients are tested")
            while len(got) > len(commands) and got[-1] == "":
                got.pop()
            if got != commands:
                raise Bad("the commands that are run are %s instead of %s" % (got, commands))
        except Bad as e:
            return Verdict("different", None, dict(what, why=e.args[0]))

    def several(cases):
        def g():
            for c in cases:
                v = go(*c)
                if v is not None:
                    return v
            return Verdict("equal", "normal form", points=len(cases))
        return g
    for patch in (False, True):
        kind = "patches" if patch else "whole images"
        cases = []
        for classes in (1, 2, 5):
            for argv in (ARGV, [ARGV[0], "-v"] + ARGV[1:]):
                n = {"patch": patch, "classes": classes, "lines": SCRIPT, "argv": argv}
                cases.append((dict(n, argv=ARGV) if argv is ARGV else n, SCRIPT, {"training on": kind, "classes": classes, "arguments": len(argv)}))
        R.guard("set up for %s" % kind, where, "nets, data sets, trainers and statistics are set up as the configuration asks when the first command runs", several([c for c in cases if len(c[0]["argv"]) == 4]))
        quit = ["train", "q", "test"]
        sc = [(SCRIPT, SCRIPT, True), (SCRIPT, SCRIPT, False), (quit, quit[:2], True), (["reset", "quit"], ["reset", "quit"], False), ([], [], True), (["test"], ["test"], False)]
        R.guard("scripts, %s" % kind, where, "the lines of the script are run in order up to 'quit' or the end",
                several([({"patch": patch, "lines": a, "end": e}, b, {"script": a, "last line ends": e}) for a, b, e in sc]))
        R.guard("typed commands, %s" % kind, where, "typed lines are run in order until 'quit' or until nothing more is typed",
                several([({"patch": patch, "argv": ARGV[:3], "typed": a}, b, {"typed": a}) for a, b in ((quit, quit[:2]), (["train", "quit"], ["train", "quit"]), (["test", "train"], ["test", "train"]), ([], []))]))
        G = ARGV[:3] + ["gradient_check"]
        R.guard("gradient check, %s" % kind, where, "the gradients of the net are tested on the first samples and no command is run",
                several([({"patch": patch, "classes": c, "argv": G}, [], {"classes": c}, True) for c in (1, 3)]))
        refused = [({"patch": patch, "lines": SCRIPT, "missing": x}, None, {"cannot be opened": x}) for x in ARGV[1:]]
        refused += [({"patch": patch, "lines": SCRIPT, "incomplete": k}, None, {"incomplete net": "testing" if k == 2 else "training"}) for k in ((1, 2) if patch else (1,))]
        refused += [({"patch": patch, "argv": G, "samples": k}, None, {"sample that cannot be loaded": k}) for k in range(BATCH)]
        refused += [ ({"patch": patch, "lines": SCRIPT, "argc": 1}, None, {"arguments": 1}), ({"patch": patch, "lines": SCRIPT, "argc": 2}, None, {"arguments": 2})]
        R.guard("refused, %s" % kind, where, "missing arguments, files that cannot be opened, incomplete nets and missing samples end the tool without a command", several(refused))
