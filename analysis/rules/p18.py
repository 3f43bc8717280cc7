"""The classification tool: what the net is fed, what is loaded when, and which picture is written."""
from terms import *
from program import program, NeverReturns
from session import Session
from compare import Verdict, Unknown, Ctx, cnum
import texts
from texts import text, lit, render

MIN = 3
T_, G_ = "Conv::Tensor", "Conv::NetGraph"
FAC, DS = "Conv::ConfigurableFactory", "Conv::TensorStreamDataset"
ARGV = ["classifyImage", "data.set", "some.net", "some.Tensor", "input.png", "output.png"]
CLASSES = 5


class Bad(Exception):
    pass


def var(n):
    return mk("gvar", n)


class Tool:
    def __init__(self, prog, w=8, h=8, maps=3, missing=None, complete=True, argc=6):
        self.prog, self.w, self.h, self.maps, self.missing, self.complete = prog, w, h, maps, missing, complete
        self.pw, self.ph = (w + 7) // 8 * 8, (h + 7) // 8 * 8
        s = self.s = Session(prog, depth=60)
        texts.prepare(s)
        s.E.concrete, s.E.bytes = True, True
        s.E.peel_limit = 5000
        self.events, self.testing, self.fed, self.nodes, self.read = [], None, None, [], {}
        H = s.E.hooks
        for q, f in (("Conv::System::Init", self.nothing), (FAC + "::ConfigurableFactory", self.factory), (DS + "::CreateFromConfiguration", self.dataset), (DS + "::GetClasses", self.classes),
                     (FAC + "::AddLayers", self.add_layers), ("Conv::Factory::AddLayers", self.add_layers), (DS + "::Colorize", self.colorize), ("Conv::Dataset::Colorize", self.colorize),
                     (T_ + "::LoadFromFile", self.load_image), (T_ + "::WriteToFile", self.write_image), (G_ + "::AddNode", self.add_node), (G_ + "::Initialize", self.initialize),
                     (G_ + "::DeserializeParameters", self.load), ("Conv::NetStatus::SetIsTesting", self.set_testing), (G_ + "::FeedForward", self.feed), (G_ + "::GetDefaultOutputNode", self.output_node),
                     (G_ + "::InitializeWeights", self.weights), ("Conv::InputLayer::InputLayer", self.input_layer),
                     ("Conv::NetGraph::~NetGraph", self.nothing)):
            H[q] = self.plain(f, q)
        for k, neg in (("good", False), ("fail", True), ("bad", True), ("operator bool", False), ("operator!", True)):
            H["std::basic_ios<char>::" + k] = lambda E, fn, obj, args, n, st, neg=neg: T if self.opens(obj, st) != neg else F
        for q in ("ifstream", "ofstream"):
            H["std::basic_%s<char>::is_open" % q] = lambda E, fn, obj, args, n, st: T if self.opens(obj, st) else F
            H["std::basic_%s<char>::close" % q] = lambda E, fn, obj, args, n, st: mk("void")
        argv = var("arguments")
        for i, x in enumerate(ARGV):
            s.st.env[el(argv, num(i))] = text(x)
            s.st.env[el(padd(addr(el(argv)), num(i)))] = text(x)
        self.args = {0: num(argc), 1: addr(el(argv))}

    def plain(self, f, name):
        def h(E, fn, obj, args, n, st):
            if E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("whether %s is called is not determined" % name)
            self.st = st
            pt = (fn.get("pt") or []) + [""] * 9
            lvs = [E.lv_or_temp(x, st) if isinstance(x, dict) and "&" in pt[i] else None for i, x in enumerate(args)]
            v = [E.arg(x, st) if isinstance(x, dict) and lvs[i] is None else x for i, x in enumerate(args)]
            r = f(obj, v, lvs)
            return mk("void") if r is None else r
        return h

    def nothing(self, o, v, l):
        pass

    def note(self, what):
        self.events.append(what)

    def stream(self, lv):
        x = self.s.E.load(lv, self.st)
        if x.op != "obj" or len(x.a) < 3:
            raise Unknown("stream %s" % show(x)[:60])
        return render(texts.as_text(self.s.E, x.a[2], self.st))

    def opens(self, obj, st):
        self.st = st
        return self.stream(el(obj)) != self.missing

    def same(self, what, a, b):
        if a != b:
            raise Bad("%s: %s instead of %s" % (what, a, b))

    # objects of the tool
    def factory(self, o, v, l):
        self.same("the file the net is read from", self.stream(l[0]), ARGV[2])
        if len(v) > 2 and v[2] is not F:
            raise Bad("the net is built for training") if v[2] is T else Unknown("kind of net %s" % show(v[2])[:60])
        self.s.E.dyn[o] = FAC
        self.the_factory = o
        self.note("net read")

    def dataset(self, o, v, l):
        self.same("the file the data set is read from", self.stream(l[0]), ARGV[1])
        p = addr(var("data set"))
        self.s.E.dyn[p] = DS
        return p

    def mine(self, o, p, what):
        if o is not p and o is not addr(el(p)):
            raise Unknown("another %s: %s" % (what, show(o)[:60]))

    def classes(self, o, v, l):
        return num(CLASSES)

    def input_layer(self, o, v, l):
        if len(l) == 2:
            self.inputs = {"data": l[0], "helper": l[1]}
        elif len(l) == 4:
            self.inputs = {"data": l[0], "helper": l[2]}
        else:
            raise Bad("the net has no spatial prior")
        self.layer = o

    def add_node(self, o, v, l):
        x = self.s.E.load(fld(el(v[0]), "layer"), self.st)
        if x is not self.layer and x is not addr(el(self.layer)):
            raise Unknown("a node of %s" % show(x)[:60])
        self.nodes.append(v[0])

    def add_layers(self, o, v, l):
        c = [x for i, x in enumerate(v) if i >= 2]
        if not c or c[0] is not num(CLASSES):
            raise Bad("the net is built for %s classes" % show(c[0])) if c and is_num(c[0]) else Unknown("classes %s" % show(c[0])[:60])
        if len(self.nodes) != 1:
            raise Bad("the net has %d inputs" % len(self.nodes))
        if self.s.E.load(fld(el(self.nodes[0]), "is_input"), self.st) is not T:
            raise Bad("the input node is not marked as input")
        self.note("net built")
        return T if self.complete else F

    def initialize(self, o, v, l):
        self.note("net initialised")

    def weights(self, o, v, l):
        self.note("weights drawn")

    def load(self, o, v, l):
        self.same("the file the parameters are read from", self.stream(l[0]), ARGV[3])
        if len(v) > 1 and v[1] is not ZERO:
            raise Bad("not all parameters are read") if is_num(v[1]) else Unknown("parameters %s" % show(v[1]))
        self.note("parameters read")

    def set_testing(self, o, v, l):
        x = self.s.E.simplify(to_bool(v[0]), self.st)
        if x is not T and x is not F:
            raise Unknown("testing %s" % show(x)[:60])
        self.testing = x is T

    def number(self, v, what):
        v = self.s.E.simplify(v, self.st)
        if not is_num(v):
            raise Unknown("%s: %s" % (what, show(v)[:60]))
        return int(v.a[0])

    def shape(self, lv):
        E = self.s.E
        out = []
        for q in ("samples", "width", "height", "maps"):
            f = self.s.method(T_, q, 0)
            out.append(self.number(E.call_fn(f, addr(lv), [], {"at": (0, 0), "k": "mcall"}, self.st), q))
        return tuple(out)

    def base(self, lv):
        return self.s.E.call_fn(self.s.method(T_, "data_ptr_const", 0), addr(lv), [], {"at": (0, 0), "k": "mcall"}, self.st)

    def element(self, p, i, what):
        v = self.s.E.load(el(padd(p, num(i))), self.st)
        if contains(v, lambda z: z.op in ("ld", "unk", "phi", "ite", "call", "undef", "alloc")):
            v = self.s.E.simplify(v, self.st)
            if contains(v, lambda z: z.op in ("unk", "phi", "ite", "call")):
                raise Unknown("%s: %s" % (what, show(v)[:80]))
            if contains(v, lambda z: z.op in ("ld", "undef", "alloc")):
                if "havoc" in self.st.stored.get(ptr_parts(p)[0], ()):
                    raise Unknown("%s: %s" % (what, show(v)[:80]))
                raise Bad("%s is not set" % what)
        return v

    def feed(self, o, v, l):
        self.note("net evaluated" if self.testing else "net evaluated as in training")
        lv = self.inputs["data"]
        self.same("samples, width, height and maps of the net's input", self.shape(lv), (1, self.pw, self.ph, self.maps))
        p = self.base(lv)
        for m in range(self.maps):
            for y in range(self.ph):
                for x in range(self.pw):
                    w = "input x=%d y=%d map=%d" % (x, y, m)
                    e = self.element(p, x + self.pw * (y + self.ph * m), w)
                    want = sym("pixel_%d_%d_%d" % (x, y, m)) if x < self.w and y < self.h else ZERO
                    if e is not want:
                        raise Bad("%s is %s instead of %s" % (w, show(e)[:60], show(want)))
        lv = self.inputs["helper"]
        self.same("samples, width, height and maps of the spatial prior", self.shape(lv), (1, self.pw, self.ph, 2))
        p = self.base(lv)
        for m in range(2):
            for y in range(self.ph):
                for x in range(self.pw):
                    w = "spatial prior x=%d y=%d map=%d" % (x, y, m)
                    e = self.element(p, x + self.pw * (y + self.ph * m), w)
                    inside = x < self.w and y < self.h
                    want = (x / (self.w - 1.) if m == 0 else y / (self.h - 1.)) if inside else 0
                    if [z for z in walk(e) if z.op == "sym"]:
                        raise Bad("%s depends on %s" % (w, show(e)[:60]))
                    got = cnum(e)(Ctx({}, 1))
                    if abs(got - want) > 1e-5:
                        raise Bad("%s is %g instead of %g" % (w, got, want))

    def output_node(self, o, v, l):
        p = addr(var("output node"))
        lv = fld(el(p), "output_buffers")
        E, st = self.s.E, self.st
        if "net output" not in self.read:
            self.read["net output"] = True
            E.store(fld(E.vec(lv, st), "#size"), ONE, st, None) if False else st.env.__setitem__(fld(E.vec(lv, st), "#size"), ONE)
            ct = addr(var("net output"))
            st.env[fld(el(mk("vdata", E.vec(lv, st)), ZERO), "combined_tensor")] = ct
            t = addr(fld(el(ct), "data"))
            f = [x for x in self.prog.byq[T_ + "::Tensor"] if len(x["params"]) >= 4][0]
            E.call_fn(f, t, [ONE, num(self.pw), num(self.ph), num(CLASSES)], {"at": (0, 0), "k": "ctor"}, st)
            self.output = t
        return p

    def colorize(self, o, v, l):
        if addr(l[0]) is not self.output:
            raise Bad("something else than the net's output is colourised")
        self.same("samples, width, height and maps of the picture", self.shape(l[1]), (1, self.pw, self.ph, 3))
        p = self.base(l[1])
        for m in range(3):
            for y in range(self.ph):
                for x in range(self.pw):
                    self.st.env[el(padd(p, num(x + self.pw * (y + self.ph * m))))] = sym("colour_%d_%d_%d" % (x, y, m))
        self.note("colourised")

    def load_image(self, o, v, l):
        self.same("the picture that is read", render(texts.as_text(self.s.E, self.s.E.load(l[0], self.st), self.st)), ARGV[4])
        E, st = self.s.E, self.st
        f = [x for x in self.prog.byq[T_ + "::Resize"] if len(x["params"]) >= 4][0]
        E.call_fn(f, o, [ONE, num(self.w), num(self.h), num(self.maps)] + [NULL, F, F, F][:len(f["params"]) - 4], {"at": (0, 0), "k": "mcall"}, st)
        p = self.base(el(o))
        for m in range(self.maps):
            for y in range(self.h):
                for x in range(self.w):
                    st.env[el(padd(p, num(x + self.w * (y + self.h * m))))] = sym("pixel_%d_%d_%d" % (x, y, m))

    def write_image(self, o, v, l):
        self.same("the picture that is written", render(texts.as_text(self.s.E, self.s.E.load(l[0], self.st), self.st)), ARGV[5])
        self.same("samples, width, height and maps of the picture that is written", self.shape(el(o)), (1, self.w, self.h, 3))
        p = self.base(el(o))
        for m in range(3):
            for y in range(self.h):
                for x in range(self.w):
                    w = "picture x=%d y=%d map=%d" % (x, y, m)
                    e = self.element(p, x + self.w * (y + self.h * m), w)
                    if e is not sym("colour_%d_%d_%d" % (x, y, m)):
                        raise Bad("%s is %s" % (w, show(e)[:60]))
        self.note("picture written")

    def run(self):
        f = [g for g in self.prog.byq["main"] if g["file"].endswith("classifyImage.cpp")][0]
        try:
            r = self.s.run(f, args=self.args)
        except NeverReturns:
            return None, []
        for e in r.exits:
            if e.kind == "throw":
                raise Bad("an exception ends the tool")
        if not is_num(r.ret):
            raise Unknown("result %s" % show(r.ret)[:60])
        return int(r.ret.a[0]), r.effects


def inside(s, effects):
    """no store outside of the buffers"""
    room = {}
    for e in effects:
        if e.kind == "new" and e.d.get("n") is not None and is_num(e.d["n"]):
            room[e.d["ptr"]] = int(e.d["n"].a[0])
    k = 0
    for e in effects:
        if e.kind == "store":
            lv = e.d["lv"] if "lv" in e.d else None
            if lv is None or lv.op != "el":
                continue
            b, i = ptr_parts(lv.a[0]) if len(lv.a) == 1 or lv.a[1] is ZERO else (lv.a[0], lv.a[1])
            if b in room:
                k += 1
                if not is_num(i):
                    raise Unknown("element %s at %s" % (show(i)[:60], e.where()))
                if not 0 <= i.a[0] < room[b]:
                    raise Bad("element %d of a buffer of %d is written at %s" % (i.a[0], room[b], e.where()))
    return k


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    f = [g for g in prog.byq["main"] if g["file"].endswith("classifyImage.cpp")][0]
    w = "%s:%d" % (f["file"], f["line"])
    R.assumptions += ["factory, data set, net and image files are abstract: their calls and the tensors they are handed are checked", "pictures are at least two pixels wide and high, their sizes are enumerated"]
    SIZES = [(8, 8), (2, 2), (9, 3), (3, 9), (5, 12), (15, 6), (16, 7), (3, 17)]
    if R.thorough:
        SIZES = [(a, b) for a in (2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 18) for b in (2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 18) if (a * b) % 3 or a == b]

    def classify(size, maps):
        def g():
            t = Tool(prog, size[0], size[1], maps)
            try:
                ret, eff = t.run()
                R.uses(*t.s.fns)
                R.uses(*sorted(t.s.E.inlined))
                if ret != 0:
                    raise Bad("the tool ends without success")
                ev = [e for e in t.events if e != "weights drawn"]
                if ev != ["net read", "net built", "net initialised", "parameters read", "net evaluated", "colourised", "picture written"]:
                    raise Bad("order of events: %s" % ", ".join(ev))
                if "weights drawn" in t.events and t.events.index("weights drawn") > t.events.index("parameters read"):
                    raise Bad("the parameters that were read are replaced")
                k = inside(t.s, eff)
            except Bad as e:
                return Verdict("different", None, {"width, height, maps": (size[0], size[1], maps), "why": e.args[0]})
            return Verdict("equal", "normal form", points=k)
        return g
    for size in SIZES:
        R.guard("%dx%d" % size, w, "the net sees the picture padded with zeros to multiples of eight, and the coordinates; the picture of its output is written in the original size", classify(size, 3))
    R.guard("grey pictures", w, "the net sees the picture padded with zeros to multiples of eight, and the coordinates; the picture of its output is written in the original size", classify((9, 10), 1))

    def refused():
        n = 0
        for kw in [{"missing": x} for x in ARGV[1:4]] + [{"complete": False}] + [{"argc": k} for k in (1, 2, 5)]:
            t = Tool(prog, **kw)
            try:
                ret, eff = t.run()
                if ret == 0:
                    raise Bad("the tool ends as if successful")
                if "picture written" in t.events:
                    raise Bad("a picture is written")
            except Bad as e:
                return Verdict("different", None, dict(kw, why=e.args[0]))
            n += 1
        return Verdict("equal", "normal form", points=n)
    R.guard("missing files and arguments", w, "files that cannot be opened, nets that are not complete and missing arguments end the tool without a picture", refused)
