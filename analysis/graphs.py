"""Bounded graph shapes for the partial evaluation of the graph code.

The layer interface is abstract: its virtual functions record the call and nothing
else; the code of NetGraph and NetGraphNode is expanded along the (known) shape."""
import random
from terms import *
from session import Session
from program import AnalysisError
from compare import Unknown

GR, ND, C_, T_ = "Conv::NetGraph", "Conv::NetGraphNode", "Conv::CombinedTensor", "Conv::Tensor"
PLAIN, LOSS, TRAIN, STAT = "Conv::ConvolutionLayer", "Conv::ErrorLayer", "Conv::DatasetInputLayer", "Conv::ConfusionMatrixLayer"
LAYER = "Conv::Layer::"
GA = "Conv::GradientAccumulationLayer"


class Node:
    def __init__(self, name, inputs=(), nout=1, is_input=False, is_output=False, cls=PLAIN):
        self.name, self.inputs, self.nout = name, [tuple(x) + (True,) * (3 - len(x)) for x in inputs], nout
        self.is_input, self.is_output, self.cls = is_input, is_output, cls


def items(E, lv, st):
    lv = E.vec(lv, st)
    n = E.load(fld(lv, "#size"), st)
    if not is_num(n):
        raise Unknown("length of a list is not known")
    return tuple(E.load(el(mk("vdata", lv), num(i)), st) for i in range(int(n.a[0])))


class Graph:
    def __init__(self, prog, shape, order=None, fail=None, extra=None, wrong=None, isa=True, graph=True):
        self.prog, self.shape = prog, shape
        self.byname = {n.name: n for n in shape}
        self.layer, self.node, self.bylayer = {}, {}, {}
        self.fail = fail           # (event, layer name): the layer refuses
        self.wrong = wrong         # layer that creates a wrong number of outputs
        self.made = {}             # layer pointer -> tensors it created
        hooks = {}
        for x in ("FeedForward", "BackPropagate", "SetBackpropagationEnabled", "OnLayerConnect", "CreateOutputs", "Connect", "CreateBufferDescriptors"):
            hooks[LAYER + x] = self.hook(x)
        hooks["Conv::LossFunctionLayer::CalculateLossFunction"] = self.loss
        hooks["Conv::StatLayer::SetDisabled"] = self.hook("SetDisabled")
        hooks.update(extra or {})
        s = self.s = Session(prog, hooks=hooks, depth=40)
        s.E.isa, s.E.concrete = isa, True
        for n in shape:
            p = s.obj("layer_" + n.name)
            self.layer[n.name] = p
            self.bylayer[p] = n.name
            s.E.dyn[p] = n.cls
        if not graph:
            return
        self.g = s.construct(GR, "graph", [])
        for n in shape:
            self.node[n.name] = s.construct(ND, "node_" + n.name, [self.layer[n.name]], ptypes=["Layer *"])
            for f in ("is_input", "is_output"):
                s.st.env[fld(el(self.node[n.name]), f)] = T if getattr(n, f) else F
        for n in shape:
            lv = fld(el(self.node[n.name]), "input_connections")
            for i, (src, buf, bp) in enumerate(n.inputs):
                e = el(mk("vdata", lv), num(i))
                s.st.env[fld(e, "node")] = self.node[src]
                s.st.env[fld(e, "buffer")] = num(buf)
                s.st.env[fld(e, "backprop")] = T if bp else F
            s.st.env[fld(lv, "#size")] = num(len(n.inputs))
        self.added = False

    def add(self, order=None):
        for n in (order or [x.name for x in self.shape]):
            self.call("AddNode", self.node[n])
        return self

    def hook(self, what):
        def h(E, fn, obj, args, n, st):
            if E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("a layer call depends on something the graph shape does not determine")
            ga = obj.op == "alloc"
            a = [x if not isinstance(x, dict) else None for x in args]
            lv = lambda x: E.lv(x, st) if isinstance(x, dict) else x
            if what == "CreateBufferDescriptors":
                if ga or obj not in self.bylayer:
                    return NotImplemented
                v = E.vec(lv(args[0]), st)
                k = int(E.load(fld(v, "#size"), st).a[0])
                c = self.byname[self.bylayer[obj]].nout
                for i in range(c):
                    st.env[fld(el(mk("vdata", v), num(k + i)), "description")] = mk("str", "o%d" % i)
                    st.env[fld(el(mk("vdata", v), num(k + i)), "combined_tensor")] = NULL
                st.env[fld(v, "#size")] = num(k + c)
                return ZERO
            if what == "CreateOutputs":
                ins = items(E, lv(args[0]), st)
                E.emit("ev", st, n, what=what, layer=obj, a=ins)
                if ga:
                    return NotImplemented
                if self.fail == (what, self.bylayer[obj]):
                    return F
                c = self.byname[self.bylayer[obj]].nout + (1 if self.wrong == self.bylayer[obj] else 0)
                v = E.vec(lv(args[1]), st)
                k = int(E.load(fld(v, "#size"), st).a[0])
                for i in range(c):
                    st.env[el(mk("vdata", v), num(k + i))] = self.tensor(self.bylayer[obj], i)
                st.env[fld(v, "#size")] = num(k + c)
                return T
            if what == "Connect":
                E.emit("ev", st, n, what=what, layer=obj, a=(items(E, lv(args[0]), st), items(E, lv(args[1]), st)))
                if ga:
                    return NotImplemented
                return F if self.fail == (what, self.bylayer[obj]) else T
            if what == "OnLayerConnect":
                E.emit("ev", st, n, what=what, layer=obj, a=items(E, lv(args[0]), st))
                return ZERO
            v = [E.ev(x, st) if isinstance(x, dict) else x for x in args]
            E.emit("ev", st, n, what=what, layer=obj, a=tuple(v))
            return ZERO
        return h

    def loss(self, E, fn, obj, args, n, st):
        return sym("loss_" + self.bylayer[obj])

    @staticmethod
    def tensor(name, i):
        return addr(mk("gvar", "out_%s_%d" % (name, i)))

    def name(self, layer):
        return self.bylayer.get(layer) or show(layer)

    # ------------------------------------------------------------- calls
    def find(self, name, *ptypes):
        c = [f for f in self.prog.byq.get(GR + "::" + name, []) if f.get("body") is not None and len(f["pt"]) == len(ptypes) and
             all(p in q for p, q in zip(ptypes, f["pt"]))]
        if not c:
            raise AnalysisError("NetGraph::%s(%s) not found" % (name, ", ".join(ptypes)))
        return c[0]

    def call(self, name, *args, ptypes=None):
        """-> events of the call, or None if it ends in an exception"""
        f = self.find(name, *(ptypes or [""] * len(args)))
        k = len(self.s.log)
        try:
            r = self.s.run(f, this=self.g, args=dict(enumerate(args)), cls=GR)
        except AnalysisError as e:
            if "never returns" in str(e):
                return None
            raise
        if [x for x in r.effects if x.kind == "throw" and not x.pc]:
            return None
        if [x for x in r.effects if x.kind == "throw" and [c for c in x.pc if c is not F]]:
            raise Unknown("cannot tell whether %s ends in an exception" % name)
        self.ret = r.ret
        return [e.d for e in self.s.log[k:] if e.kind == "ev"]

    def vector(self, getter):
        f = self.find(getter)
        s = self.s.fork()
        r = s.run(f, this=self.g, cls=GR)
        p = r.ret
        return items(s.E, p.a[0] if p.op == "addr" else p, s.st)


def random_shape(rng, n):
    out = [Node("in", nout=rng.randint(1, 4), is_input=True, cls=TRAIN)]
    if rng.random() < 0.3:
        out.append(Node("in2", nout=1, is_input=True, cls=rng.choice((PLAIN, TRAIN))))
    for i in range(n):
        k = rng.choice((1, 1, 2, 3)) if i else 1
        ins = []
        for j in range(k):
            src = rng.choice(out if (i == 0 or rng.random() < 0.35) else [x for x in out if not x.is_input])
            ins.append((src.name, rng.randrange(src.nout), rng.random() < 0.85))
        last = i == n - 1
        cls = rng.choice((LOSS, STAT, PLAIN, PLAIN)) if not last else LOSS
        out.append(Node("n%d" % i, ins, nout=1, is_output=last or rng.random() < 0.15, cls=cls))
    return out
