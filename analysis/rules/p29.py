"""The training tool's commands: which calls each command leads to, in which state, on what."""
from terms import *
from program import program, NeverReturns
from session import Session
from compare import Verdict, Unknown
import texts
from texts import text, lit, word, dig, render

MIN = 3
G_, TR, SA, T_ = "Conv::NetGraph::", "Conv::Trainer::", "Conv::StatAggregator::", "Conv::Tensor"
PARAMS = 3


class Bad(Exception):
    pass


def var(n):
    return mk("gvar", n)



class Tool:
    """the objects a command works on; calls are recorded together with the state they meet"""
    def __init__(self, prog, hybrid, files=True):
        self.prog, self.hybrid = prog, hybrid
        s = self.s = Session(prog, depth=40)
        texts.prepare(s)
        s.E.concrete = True
        self.events = []
        self.recording, self.view, self.epoch, self.shadow, self.stats = False, {"training": F, "testing": F}, {"training": sym("epoch"), "testing": sym("old testing epoch")}, dict(SHADOWED) if hybrid else {}, {}
        H = s.E.hooks
        for q, f in ((SA + "StartRecording", self.start), (SA + "StopRecording", self.stop), (SA + "Generate", self.generate), (SA + "Reset", self.clear), (SA + "SetCurrentExperiment", self.experiment),
                     (G_ + "SetLayerViewEnabled", self.set_view), (G_ + "DeserializeParameters", self.load), (G_ + "SerializeParameters", self.save), (G_ + "InitializeWeights", self.weights),
                     (G_ + "GetParameters", self.parameters), (G_ + "PrintGraph", self.graph), (TR + "Train", self.train), (TR + "Test", self.test), (TR + "SetEpoch", self.set_epoch),
                     (TR + "Reset", self.trainer_reset), (TR + "SetStatsDuringTraining", self.set_stats), (TR + "epoch", self.get_epoch), (T_ + "::Shadow", self.shadows), ("help", self.help)):
            H[q] = self.plain(f, q)
        for k, v in (("good", files), ("fail", not files), ("bad", False), ("operator bool", files), ("operator!", not files)):
            H["std::basic_ios<char>::" + k] = lambda E, fn, obj, args, n, st, v=v: T if v else F
        for q in ("ifstream", "ofstream"):
            H["std::basic_%s<char>::is_open" % q] = lambda E, fn, obj, args, n, st: T if files else F
            H["std::basic_%s<char>::close" % q] = lambda E, fn, obj, args, n, st: mk("void")

    def plain(self, f, name):
        def h(E, fn, obj, args, n, st):
            if E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("whether %s is called is not determined" % name)
            self.st = st
            lvs = [E.lv_or_temp(x, st) if isinstance(x, dict) and "&" in (fn.get("pt") or [""] * 9)[i] else None for i, x in enumerate(args)]
            v = [E.ev(x, st) if isinstance(x, dict) and lvs[i] is None else x for i, x in enumerate(args)]
            r = f(obj, v, lvs)
            return mk("void") if r is None else r
        return h

    def which(self, obj, what):
        for name in ("training", "testing"):
            o = addr(var(name + " " + what))
            if obj is o or obj is addr(el(o)):
                return name
        raise Unknown("%s %s" % (what, show(obj)[:60] if obj is not None else "?"))

    def note(self, *e):
        self.events.append(tuple(e))

    # statistics
    def start(self, o, v, l):
        self.recording = True

    def stop(self, o, v, l):
        self.recording = False

    def generate(self, o, v, l):
        self.note("statistics written", "while recording" if self.recording else "")

    def clear(self, o, v, l):
        self.note("statistics cleared", "while recording" if self.recording else "")

    def experiment(self, o, v, l):
        t = texts.as_text(self.s.E, v[0] if l[0] is None else self.s.E.load(l[0], self.st), self.st)
        self.note("experiment", render(t))

    # networks
    def flag(self, v, what):
        v = self.s.E.simplify(to_bool(v), self.st)
        if v is T or v is F:
            return v
        raise Unknown("%s: %s" % (what, show(v)[:80]))

    def set_view(self, o, v, l):
        self.view[self.which(o, "network")] = self.flag(v[0], "layer view")

    def stream(self, lv):
        x = self.s.E.load(lv, self.st)
        if x.op != "obj" or len(x.a) < 3:
            raise Unknown("stream %s" % show(x)[:60])
        return x.a[0].split("<")[0].split("::")[-1], render(texts.as_text(self.s.E, x.a[2], self.st)), self.mode(x)

    def mode(self, x):
        """what is unusual about the way the file is opened"""
        names = {str(y.a[0]).split("::")[-1] for z in x.a[3:] for y in walk(z) if y.op == "gvar"}
        return " ".join(sorted(names - {"in", "out", "binary", "trunc"}))

    def load(self, o, v, l):
        self.shadow = {}
        self.note("parameters read", self.which(o, "network"), self.stream(l[0]), render_num(v[1]) if len(v) > 1 else "0")

    def save(self, o, v, l):
        self.note("parameters written", self.which(o, "network"), self.stream(l[0]))

    def weights(self, o, v, l):
        self.note("weights drawn", self.which(o, "network"))

    def graph(self, o, v, l):
        self.note("network drawn", self.which(o, "network"), self.stream(l[0])[1])

    def parameters(self, o, v, l):
        w, E, st = self.which(o, "network"), self.s.E, self.st
        lv = E.vec(l[0], st)
        k = E.load(fld(lv, "#size"), st)
        if k is not ZERO:
            raise Unknown("parameters are added to others")
        for i in range(PARAMS):
            st.env[el(mk("vdata", lv), num(i))] = addr(var("%s parameter %d" % (w, i)))
        st.env[fld(lv, "#size")] = num(PARAMS)

    def shadows(self, o, v, l):
        a, b = o, addr(l[0])
        places = {}
        for w in ("training", "testing"):
            for i in range(PARAMS):
                for k in ("data", "delta"):
                    places[addr(fld(var("%s parameter %d" % (w, i)), k))] = places[addr(fld(el(addr(var("%s parameter %d" % (w, i)))), k))] = (w, i, k)
        if a not in places or b not in places:
            raise Unknown("tensor %s shadows %s" % (show(a)[:60], show(b)[:60]))
        self.shadow[places[a]] = places[b]

    # trainers
    def train(self, o, v, l):
        w = self.which(o, "trainer")
        self.note("training", w, "epochs " + render_num(v[0]), "snapshots" if self.flag(v[1], "snapshots") is T else "no snapshots",
                  "recorded" if self.recording else "not recorded", "view" if self.view[w] is T else "")
        self.epoch[w] = add(self.epoch[w], v[0])

    def test(self, o, v, l):
        w = self.which(o, "trainer")
        e = self.epoch[w]
        self.note("testing", w, "in epoch %s" % show(e), "recorded" if self.recording else "not recorded", "view" if self.view[w] is T else "")

    def set_epoch(self, o, v, l):
        self.epoch[self.which(o, "trainer")] = v[0]

    def get_epoch(self, o, v, l):
        return self.epoch[self.which(o, "trainer")]

    def trainer_reset(self, o, v, l):
        w = self.which(o, "trainer")
        if w == "training":
            self.note("trainer reset", w)

    def set_stats(self, o, v, l):
        self.stats[self.which(o, "trainer")] = self.flag(v[0], "statistics")

    def help(self, o, v, l):
        self.note("help")

    def run(self, command):
        f = [g for g in self.prog.byq["parseCommand"] if len(g["params"]) == 6][0]
        c = var("command")
        self.s.st.env[c] = command
        args = {0: var("training network"), 1: var("testing network"), 2: var("training trainer"), 3: var("testing trainer"), 4: T if self.hybrid else F, 5: c}
        try:
            r = self.s.run(f, args=args)
        except NeverReturns:
            raise Bad("the program ends")
        for e in r.exits:
            if e.kind == "throw":
                raise Bad("an exception leaves the command")
        if self.s.st.dead:
            raise Bad("the program ends")
        if r.ret is not T and r.ret is not F:
            raise Unknown("result %s" % show(r.ret)[:60])
        return r.ret is T


def render_num(v):
    return show(v)


SHADOWED = {("testing", i, k): ("training", i, k) for i in range(PARAMS) for k in ("data", "delta")}
N, M = sym("n"), sym("m")


def commands():
    """(command, files can be opened, expected events, expected final: epoch of training, go on)"""
    W = lit("net-5.dat")
    E, NE = sym("epoch"), None
    def training(epochs=ONE, snap=True, view=False):
        return [("training", "training", "epochs " + show(epochs), "snapshots" if snap else "no snapshots", "recorded", "view" if view else "")] + \
               ([] if snap else [("statistics written", "")]) + [("statistics cleared", "")]
    def testing(view=False):
        return [("testing", "testing", "in epoch " + show(E), "recorded", "view" if view else ""), ("statistics written", ""), ("statistics cleared", "")]
    out = [(text(c), True, [], E, False, None) for c in ("q", "quit")]
    add_ = lambda c, ev, ep=E, files=True, stats=None: out.append((c, files, ev, ep, True, stats))
    add_(text("train"), training(), add(E, ONE))
    add_(text("train epochs=", dig(N)), training(N), add(E, N))
    add_(text("train epochs=", dig(N), " no_snapshots=1"), training(N, False), add(E, N))
    add_(text("train no_snapshots=1 epochs=", dig(N)), training(N, False), add(E, N))
    add_(text("train epochs=3 view=1 no_snapshots=1"), training(num(3), False, True), add(E, num(3)))
    add_(text("train no_snapshots=0"), training(), add(E, ONE))
    add_(text("train view=1"), training(view=True), add(E, ONE))
    add_(text("train view=0 epochs=", dig(N)), training(N), add(E, N))
    add_(text("test"), testing())
    add_(text("test view=1"), testing(True))
    add_(text("load"), [])
    add_(text("load file=", W), [("parameters read", "training", ("basic_ifstream", "net-5.dat", ""), "0")])
    add_(text("load file=", W, " last_layer=", dig(N)), [("parameters read", "training", ("basic_ifstream", "net-5.dat", ""), show(N))])
    add_(text("load last_layer=", dig(N), " file=", W), [("parameters read", "training", ("basic_ifstream", "net-5.dat", ""), show(N))])
    add_(text("load file=", W, " last_layer=2"), [("parameters read", "training", ("basic_ifstream", "net-5.dat", ""), "2")])
    add_(text("load file=", W), [], files=False)
    add_(text("save"), [])
    add_(text("save file=", W), [("parameters written", "training", ("basic_ofstream", "net-5.dat", ""))])
    add_(text("save file=", W), [], files=False)
    add_(text("set experiment name=", lit("third")), [("experiment", "third")])
    add_(text("set experiment"), [])
    add_(text("set epoch=", dig(N)), [("trainer reset", "training")], N)
    add_(text("reset"), [("weights drawn", "training"), ("trainer reset", "training")])
    add_(text("help"), [("help",)])
    add_(text("graph"), [])
    add_(text("graph file=", lit("net.dot")), [("network drawn", "training", "net.dot")])
    add_(text("graph file=", lit("net.dot"), " train"), [("network drawn", "training", "net.dot")])
    add_(text("graph file=", lit("net.dot"), " test"), [("network drawn", "testing", "net.dot")])
    add_(text("tstat"), [], stats=T)
    add_(text("tstat enable=1"), [], stats=T)
    add_(text("tstat enable=0"), [], stats=F)
    for c in ("", "x", "something else", "trai", "set", "e"):
        add_(text(c), [])
    return out


def decide(prog, cmd, hybrid):
    c, files, events, epoch, goes_on, stats = cmd
    t = Tool(prog, hybrid, files)
    got = t.run(c)
    R_USED.update(t.s.fns)
    R_USED.update(t.s.E.inlined)
    if got is not goes_on:
        raise Bad("the tool %s" % ("ends" if goes_on else "goes on"))
    if t.events != events:
        for a, b in zip(t.events + [None] * 9, events + [None] * 9):
            if a != b:
                if a is not None and any("?" in str(x) for x in a):
                    raise Unknown("%s" % (a,))
                raise Bad("%s instead of %s" % (" ".join(str(x) for x in a if x) if a else "nothing", " ".join(str(x) for x in b if x) if b else "nothing"))
    if t.recording:
        raise Bad("statistics are still recorded")
    for w, v in t.view.items():
        if v is not F:
            raise Bad("the view of the %s network stays on" % w)
    if t.epoch["training"] is not epoch:
        raise Bad("the epoch is %s instead of %s" % (show(t.epoch["training"]), show(epoch)))
    if events and events[0][0] in ("training", "testing") or epoch is N:
        if t.epoch["testing"] is not epoch:
            raise Bad("testing takes place in epoch %s instead of %s" % (show(t.epoch["testing"]), show(epoch)))
    if stats is not None and t.stats != {"training": stats, "testing": stats}:
        raise Bad("statistics during training: %s" % {k: show(v) for k, v in t.stats.items()})
    if stats is None and t.stats:
        raise Bad("statistics during training are changed")
    if hybrid and t.shadow != SHADOWED:
        miss = sorted(str(k) for k in set(SHADOWED) - set(k for k, v in t.shadow.items() if SHADOWED.get(k) == v))
        raise Bad("parameters of the testing network that are not those of the training network: %s" % (miss or sorted(map(str, t.shadow.items()))))
    if not hybrid and t.shadow:
        raise Bad("parameters are shared although there is one network only")


R_USED = set()


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    f = [g for g in prog.byq["parseCommand"] if len(g["params"]) == 6][0]
    w = "%s:%d" % (f["file"], f["line"])
    R.assumptions += ["networks, trainers and statistics are abstract: their calls are recorded (what they do is decided elsewhere)", "%d parameter sets; numbers in commands are unknown" % PARAMS]

    def group(words, hybrid):
        def g():
            n, open_ = 0, []
            for cmd in commands():
                c = render(cmd[0])
                first = c.split(" ")[0]
                if (first in words) if words is not None else first not in KNOWN:
                    try:
                        decide(prog, cmd, hybrid)
                    except Bad as e:
                        return Verdict("different", None, {"command": c, "separate testing network": hybrid, "files can be opened": cmd[1], "why": e.args[0]})
                    except Unknown as e:
                        open_.append(e)
                    n += 1
            if open_:
                raise open_[0]
            return Verdict("equal", "normal form", points=n)
        return g
    KNOWN = ("train", "test", "load", "save", "set", "reset", "graph", "tstat", "help", "q", "quit")
    for name, words in (("train and test", ("train", "test")), ("load and save", ("load", "save")), ("set and reset", ("set", "reset", "tstat")), ("graph, help and quit", ("graph", "help", "q", "quit")), ("anything else", None)):
        for hybrid in (False, True):
            R.guard("%s%s" % (name, ", separate testing network" if hybrid else ""), w, "the command leads to the calls it stands for, in the right state, and leaves the rest alone", group(words, hybrid))
    R.uses(*sorted(R_USED))
