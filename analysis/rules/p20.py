"""A network description creates exactly the network it describes."""
import random
from terms import *
from program import program, AnalysisError, NeverReturns
from session import Session
from compare import Verdict, Unknown
from engine import Exit
import texts
from texts import text, lit, dig, dec, word, open_stream, objects_differ, render

MIN = 8
CF, GR, ND = "Conv::ConfigurableFactory", "Conv::NetGraph", "Conv::NetGraphNode"


class Numeral:
    """supply of symbols with their least value"""
    def __init__(self):
        self.low, self.n = {}, 0

    def new(self, kind, low):
        self.n += 1
        s = sym("%s%d" % (kind, self.n))
        self.low[s] = low
        return s


def positive(d, low):
    """d > 0 whenever every symbol is at least its least value"""
    d = as_poly(d)
    out = {}
    for m, c in d.items():
        terms = {(): c}
        for x, p in m:
            if x not in low or p < 1:
                return False
            for _ in range(p):
                nt = {}
                for k, v in terms.items():
                    nt[tuple(sorted(k + (x.id,)))] = nt.get(tuple(sorted(k + (x.id,))), 0) + v
                    nt[k] = nt.get(k, 0) + v * low[x]
                terms = nt
        for k, v in terms.items():
            out[k] = out.get(k, 0) + v
    return all(v >= 0 for v in out.values()) and out.get((), 0) > 0


def folder(low):
    def f(op, a, b):
        r = texts.cmp_fold(op, a, b)
        if r is not None:
            return r
        if not (is_numeric(a) and is_numeric(b)):
            return None
        d = sub(a, b)
        if is_num(d):
            return None
        if positive(d, low):
            return {"==": F, "!=": T, ">": T, ">=": T, "<": F, "<=": F}.get(op)
        if positive(neg(d), low):
            return {"==": F, "!=": T, ">": F, ">=": F, "<": T, "<=": T}.get(op)
        if positive(add(d, ONE), low):
            return {">=": T, "<": F}.get(op)
        if positive(add(neg(d), ONE), low):
            return {"<=": T, ">": F}.get(op)
        return None
    return f


def sure(*ts):
    for t in ts:
        if not texts.settled(t):
            raise Unknown("value is not decided: %s" % (t,))


RNG = "std::mersenne_twister_engine<"


class Layer:
    """what the description asks for: class, constructor arguments, settings, connections"""
    def __init__(self, cls, args, ptypes=None, ins=(), out=False, llr=None):
        self.cls, self.args, self.ptypes, self.ins, self.out, self.llr = "Conv::" + cls, list(args), ptypes, list(ins), out, llr


SEED = mk("seedmark")


class Description:
    """a generated description: its text, and the network it stands for"""
    def __init__(self, rng, N, patch, unit, classes, kinds=None, length=6, manual=False, prefix=(), training=None):
        self.rng, self.N, self.patch, self.unit, self.classes = rng, N, patch, unit, classes
        self.lines, self.layers = [], []
        self.rx = self.ry = ZERO
        self.fx = self.fy = ONE
        self.settings = {}
        self.manual = manual
        if rng.random() < 0.5:
            self.lines.append(text("# " + rng.choice(("?tanh", "comment", "method=patch?sigm"))))
        self.training = patch if training is None else training
        if patch or rng.random() < 0.3:
            self.lines.append(text("method=" + ("patch" if patch or not self.training and rng.random() < 0.5 else "fcn")))
        if manual:
            a = [N.new("rf", 1), N.new("rf", 1), N.new("factor", 2), N.new("factor", 2)]
            ks = ["rfx", "rfy", "factorx", "factory"]
            rng.shuffle(ks)
            v = dict(zip(["rfx", "rfy", "factorx", "factory"], a))
            self.lines.append(text("manual", *[y for k in ks for y in (" %s=" % k, dig(v[k]))]))
            self.rx, self.ry, self.fx, self.fy = a
        self.last = ("data", None, None)     # None: as given by the caller
        self.stacks = {"a": [], "b": []}
        self.up = None
        self.plan = []
        n = len(prefix)
        self.plan += prefix
        while n < length:
            k = rng.choice(kinds or ["conv", "conv", "pool", "apool", "nl", "nl", "lrn", "hmax", "fc", "push", "push", "pop", "concat", "sum", "prior", "upscale", "down", "setting", "blank"])
            if unit and k in ("pool", "down", "apool"):
                continue
            self.plan.append(k)
            n += 1
        if patch and not prefix and "prior" in self.plan and rng.random() < 0.5:
            self.plan.remove("prior")
        self.plan.append("output")
        if rng.random() < 0.3:
            self.plan.append(rng.choice(("nl", "setting", "blank")))
        for k in self.plan:
            getattr(self, "t_" + k)()
        trailing = rng.random() < 0.6
        out = []
        for i, l in enumerate(self.lines):
            out.append(l)
            if i + 1 < len(self.lines) or trailing:
                out.append("\n")
        self.text = text(*out)

    def keys(self, name, kv, extra=None):
        kv = list(kv)
        self.rng.shuffle(kv)
        ps = ["?" + name]
        for k, v in kv:
            ps.append(" %s=" % k)
            ps += v if isinstance(v, list) else [v]
        self.lines.append(text(*ps))

    def xy(self, a, b):
        return [dig(a), "x", dig(b)]

    def grow(self, kx, ky, fx, fy):
        if not self.manual:
            self.rx, self.ry = add(self.rx, mul(self.fx, kx)), add(self.ry, mul(self.fy, ky))
            self.fx, self.fy = mul(self.fx, fx), mul(self.fy, fy)

    def note(self, act, *a):
        self.layers.append((act,) + a)

    def opt(self, p=0.5):
        return self.rng.random() < p

    # -- kinds of lines ------------------------------------------------------
    def t_conv(self, full=False):
        N = self.N
        kv = []
        px = py = ZERO
        sx = sy = ONE
        kx = ky = ONE
        if not full:
            if self.opt(0.4):
                px, py = N.new("pad", 1), N.new("pad", 1)
                kv.append(("pad", self.xy(px, py)))
            kx, ky = add(N.new("k", 2), scale(px, 2)), add(N.new("k", 2), scale(py, 2))
            kv.append(("size", self.xy(kx, ky)))
            if not self.unit and self.opt(0.4):
                sx, sy = N.new("stride", 2), N.new("stride", 2)
                kv.append(("stride", self.xy(sx, sy)))
        maps = ("(o)", num(self.classes)) if self.opt(0.2) else None
        g = ONE
        if maps is None:
            m = N.new("maps", 1)
            if self.opt(0.4):
                g = N.new("group", 1)
                kv.append(("group", dig(g)))
                m = mul(g, m)
            maps = (dig(m), m)
        kv.append(("neurons" if full else "kernels", maps[0]))
        drop, llr = ZERO, ONE
        if self.opt(0.3):
            drop = N.new("drop", 0)
            kv.append(("dropout", dec(drop)))
        if self.opt(0.3):
            llr = N.new("llr", 0)
            kv.append(("llr", dec(llr)))
        self.keys("fullyconnected" if full else "convolutional", kv)
        if not full:
            self.grow(sub(sub(kx, ONE), scale(px, 2)), sub(sub(ky, ONE), scale(py, 2)), sx, sy)
        self.note("layer", Layer("ConvolutionLayer", [kx, ky, maps[1], sx, sy, px, py, g, SEED, drop], llr=llr), True)

    def t_fc(self):
        self.t_conv(True)

    def t_pool(self):
        a, b = self.N.new("pool", 2), self.N.new("pool", 2)
        self.keys("maxpooling", [("size", self.xy(a, b))])
        self.grow(ZERO, ZERO, a, b)
        self.note("layer", Layer("MaxPoolingLayer", [a, b]), True)

    def t_apool(self):
        a, b = self.N.new("pool", 2), self.N.new("pool", 2)
        kv = [("size", self.xy(a, b))]
        x, y = a, b
        if self.opt():
            x, y = self.N.new("stride", 2), self.N.new("stride", 2)
            kv.append(("stride", self.xy(x, y)))
        self.keys("amaxpooling", kv)
        self.grow(sub(a, ONE), sub(b, ONE), x, y)
        self.note("layer", Layer("AdvancedMaxPoolingLayer", [a, b, x, y]), True)

    def t_down(self):
        a, b = self.N.new("down", 2), self.N.new("down", 2)
        self.keys("downsampling", [("size", self.xy(a, b))])
        self.grow(ZERO, ZERO, a, b)
        self.note("layer", Layer("InputDownSamplingLayer", [a, b]), False)

    def t_nl(self):
        k = self.rng.choice(("tanh", "sigm", "relu"))
        self.lines.append(text("?" + k))
        self.note("layer", Layer({"tanh": "TanhLayer", "sigm": "SigmoidLayer", "relu": "ReLULayer"}[k], []), True)

    def t_hmax(self):
        mu, w = ONE, ZERO
        kv = []
        if self.opt():
            mu = self.N.new("mu", 0)
            kv.append(("mu", dec(mu)))
        if self.opt():
            w = self.N.new("w", 0)
            kv.append(("weight", dec(w)))
        self.keys("hmax", kv)
        self.note("layer", Layer("HMaxActivationFunction", [mu, w], ptypes=["float", "float"], llr=ONE), True)

    def t_lrn(self):
        m = self.rng.choice(("across", "within"))
        kv = [("method", m)]
        size = al = be = ONE
        if self.opt(0.7):
            size = self.N.new("size", 1)
            kv.append(("size", dig(size)))
        if self.opt():
            al = self.N.new("alpha", 0)
            kv.append(("alpha", dec(al)))
        if self.opt():
            be = self.N.new("beta", 0)
            kv.append(("beta", dec(be)))
        self.keys("lrn", kv)
        self.note("layer", Layer("LocalResponseNormalizationLayer", [size, al, be, m]), True)

    def t_pusha(self):
        self.t_push("a")

    def t_pushb(self):
        self.t_push("b")

    def t_concata(self):
        self.gather("concat", "ConcatenationLayer", "a")

    def t_concatb(self):
        self.gather("concat", "ConcatenationLayer", "b")

    def t_suma(self):
        self.gather("sum", "SumLayer", "a")

    def t_sumb(self):
        self.gather("sum", "SumLayer", "b")

    def t_push(self, n=None):
        n = n or self.rng.choice("ab")
        self.lines.append(text("push" + n))
        self.stacks[n].append(1)
        self.note("push", n)

    def t_popa(self):
        self.t_pop("a")

    def t_popb(self):
        self.t_pop("b")

    def t_pop(self, n=None):
        n = n or self.rng.choice("ab")
        if not self.stacks[n]:
            return
        self.stacks[n].pop()
        self.lines.append(text("pop" + n))
        self.note("pop", n)

    def gather(self, name, cls, n=None):
        n = n or self.rng.choice("ab")
        if not self.stacks[n]:
            return
        self.keys(name, [("stack", n)] if n == "b" or self.opt() else [])
        self.note("gather", n, cls)

    def t_concat(self):
        self.gather("concat", "ConcatenationLayer")

    def t_sum(self):
        self.gather("sum", "SumLayer")

    def t_prior(self):
        self.lines.append(text("?spatialprior"))
        self.note("prior")

    def t_upscale(self):
        a, b = self.N.new("up", 2), self.N.new("up", 2)
        kv = [("factor", self.xy(a, b))]
        out = self.opt(0.3)
        if out or self.opt(0.3):
            kv.append(("is_output", "1" if out else "0"))
        self.keys("upscale", kv)
        self.note("upscale", a, b, out)

    def t_output(self):
        w = None
        if self.opt():
            w = self.N.new("weight", 0)
            self.lines.append(text("?output weight=", dec(w)))
        else:
            self.lines.append(text("?output"))
        self.note("output", w if w is not None else ONE)

    def t_blank(self):
        self.lines.append(text(self.rng.choice(("", "# ?relu", "flatten", "?flatten") if not self.patch else ("", "# ?relu"))))

    REAL = [("l1", "l1_weight"), ("l2", "l2_weight"), ("lr", "learning_rate"), ("gamma", "gamma"), ("momentum", "momentum"),
            ("exponent", "exponent"), ("eta", "eta"), ("mu", "mu")]
    INT = [("iterations", "iterations"), ("sbatchsize", "sbatchsize"), ("pbatchsize", "pbatchsize")]

    def t_setting(self):
        k = self.rng.choice(self.REAL + self.INT + [("optimization", None)])
        if k[1] is None:
            m = self.rng.choice(("gradient_descent", "quickprop"))
            self.lines.append(text("optimization=" + m))
            self.settings["optimization_method"] = m
            return
        v = self.N.new("v", 1)
        self.lines.append(text(k[0] + "=", dec(v) if k in self.REAL else dig(v)))
        self.settings[k[1]] = v

    # -- the network it stands for -------------------------------------------
    def network(self, with_loss):
        """[(Layer, connections [(node, buffer, backprop or None: caller's)], is_output)]"""
        nodes = []
        DATA = ("data", None, None)
        cur = [DATA]
        rf = (add(self.rx, self.fx), add(self.ry, self.fy)) if self.patch else (self.rx, self.ry)
        up = [self.fx is ONE and self.fy is ONE]
        stacks = {"a": [], "b": []}
        unit = up[0]

        def addn(l, ins=None, out=False, bp=True, chain=True):
            nodes.append((l, list(ins) if ins is not None else [cur[0]], out))
            if chain:
                cur[0] = (len(nodes) - 1, 0, bp)
        if not self.patch and not (rf[0] is ZERO and rf[1] is ZERO):
            addn(Layer("ResizeLayer", list(rf), ptypes=["unsigned int", "unsigned int"]), bp=False)
        for a in self.layers:
            if a[0] == "layer":
                addn(a[1], bp=a[2])
            elif a[0] == "push":
                stacks[a[1]].append(cur[0])
            elif a[0] == "pop":
                cur[0] = stacks[a[1]].pop()
            elif a[0] == "gather":
                addn(Layer(a[2], []), ins=stacks[a[1]][::-1])
            elif a[0] == "prior":
                if not up[0] and not self.patch:
                    addn(Layer("UpscaleLayer", [self.fx, self.fy]))
                    up[0] = True
                addn(Layer("ConcatenationLayer", []), ins=[cur[0], ("data", 2, False)])
            elif a[0] in ("upscale", "output"):
                if a[0] == "upscale":
                    addn(Layer("UpscaleLayer", [a[1], a[2]]), out=a[3])
                    up[0] = True
                    isout, w = a[3], ONE
                else:
                    isout, w = True, a[1]
                    addn(Layer("TanhLayer" if self.classes == 1 else "SigmoidLayer", []), out=self.patch or up[0])
                    if not up[0] and not self.patch and not unit:
                        addn(Layer("UpscaleLayer", [self.fx, self.fy]), out=True)
                if isout and with_loss:
                    addn(Layer("ErrorLayer", [w], ptypes=["float"]), ins=[(cur[0][0], 0, True), ("data", 1, None), ("data", 3, None)], chain=False)
        return nodes, rf


def scenario(P, seed, patch, unit, classes, loss, kinds=None, length=6, manual=False, prefix=(), training=None, R=None):
    rng = random.Random(seed)
    N = Numeral()
    D = Description(rng, N, patch, unit, classes, kinds, length, manual, prefix, training)
    s = Session(P, depth=40)
    texts.prepare(s)
    s.E.isa = True
    s.E.cmp_fold = folder(N.low)
    rngs = {}

    def draw(E, fn, obj, args, n, st):
        v = E.load(el(obj), st)
        if v.op != "obj":
            return NotImplemented
        k = st.env.get(fld(el(obj), "@n"), ZERO)
        st.env[fld(el(obj), "@n")] = add(k, ONE)
        return mk("draw", v.a[2] if len(v.a) > 2 else ZERO, k)
    for q in {g["q"] for g in rng_functions(P)}:
        s.E.hooks[q] = draw
    for x in "ab":                  # statistics of the layer type are registered already
        s.st.env[mk("gvar", "Conv::HMaxActivationFunction::stat_id_" + x)] = ZERO
    f = open_stream(s, "file", D.text)
    seed_s = sym("seed")
    fac = s.construct(CF, "factory", [f, seed_s, T if D.training else F])
    what = "description %s" % repr(render(D.text))[:600]
    nodes, rf = D.network(loss)
    for q, want in (("patchsizex", rf[0]), ("patchsizey", rf[1])):
        got = s.query(CF, q, fac)
        sure(got)
        if got is not want:
            raise Bad("%s() = %s, the description asks for %s" % (q, got, want), what)
    m = s.query(CF, "method", fac)
    # the data layer
    g = s.construct(GR, "graph", [])
    dl = s.obj("datalayer")
    s.E.dyn[dl] = "Conv::DatasetInputLayer"
    s.E.hooks["Conv::DatasetInputLayer::CreateBufferDescriptors"] = s.E.hooks.get("x", lambda *a: ZERO)
    dn = s.construct(ND, "datanode", [dl], ptypes=["Layer *"])
    s.st.env[fld(el(dn), "is_input")] = T
    an = [x for x in P.byq[GR + "::AddNode"] if x.get("body") is not None][0]
    s.run(an, this=g, args={0: dn}, cls=GR)
    dbp = F if rng.random() < 0.5 else T
    conn = mk("gvar", "dataconnection")
    dbuf = num(rng.choice((0, 0, 2)))
    s.st.env[fld(conn, "node")] = dn
    s.st.env[fld(conn, "buffer")] = dbuf
    s.st.env[fld(conn, "backprop")] = dbp
    s.E.hooks[GR + "::IsComplete"] = lambda E, fn, obj, a, n, st: mk("tb", sym("complete"))
    r = s.run(s.method(CF, "AddLayers"), this=fac, args={0: el(g), 1: mk("val", conn), 2: num(classes), 3: T if loss else F}, cls=CF)
    if R is not None:
        R.uses(*s.E.inlined)
        R.uses(CF + "::ConfigurableFactory", CF + "::AddLayers", CF + "::InitOptimalSettings")
    if [e for e in r.effects if e.kind == "throw" and e.pc]:
        raise Unknown("construction depends on undecided conditions: %s" % [str(c) for e in r.effects if e.kind == "throw" for c in e.pc][:3])
    got = s.vec_items(fld(el(g), "nodes_")) if False else nodes_of(s, g, P)
    if got is None:
        raise Unknown("number of nodes is not known")
    got = got[1:]
    if to_bool(r.ret) is not mk("tb", sym("complete")):
        raise Bad("AddLayers does not report whether the network is complete", what)
    if len(got) != len(nodes):
        raise Bad("%d nodes are created, the description asks for %d (%s)" % (len(got), len(nodes), ", ".join(n[0].cls[6:] for n in nodes)), what)
    seeds = []
    for i, (p, (l, ins, out)) in enumerate(zip(got, nodes)):
        at = "node %d (%s)" % (i, l.cls[6:])
        lp = s.get(p, "layer")
        sure(lp)
        cls = s.E.dyn.get(lp) or (lp.a[1] if lp.op == "alloc" else None)
        if cls is None:
            raise Unknown("class of %s" % at)
        if cls != l.cls:
            raise Bad("%s is a %s" % (at, cls), what)
        sure(s.get(p, "is_output"), s.get(p, "is_input"))
        if s.get(p, "is_output") is not (T if out else F):
            raise Bad("%s: is_output is %s" % (at, s.get(p, "is_output")), what)
        if s.get(p, "is_input") is not F:
            raise Bad("%s is marked as input" % at, what)
        lv = fld(el(p), "input_connections")
        n = s.E.load(fld(s.E.vec(lv, s.st), "#size"), s.st)
        sure(n)
        if n is not num(len(ins)):
            raise Bad("%s has %s connections instead of %d" % (at, n, len(ins)), what)
        for k, (src, buf, bp) in enumerate(ins):
            e = el(mk("vdata", s.E.vec(lv, s.st)), num(k))
            want = (dn if src == "data" else got[src], dbuf if buf is None else num(buf),
                    F if src == "data" else (dbp if bp is None else (T if bp else F)))
            have = tuple(s.E.load(fld(e, x), s.st) for x in ("node", "buffer", "backprop"))
            for w, h, nm in zip(want, have, ("source", "buffer", "backprop flag")):
                sure(h)
                if w is not h:
                    raise Bad("%s, connection %d: %s is %s instead of %s" % (at, k, nm, name_of(h, got, dn), name_of(w, got, dn)), what)
        # settings: the layer equals one constructed directly with them
        s2 = s.fork()
        args = list(l.args)
        if l.cls.endswith("LocalResponseNormalizationLayer"):
            args[3] = enum(P, "ACROSS_CHANNELS" if args[3] == "across" else "WITHIN_CHANNELS")
        if SEED in args:
            sd = seed_of(s, lp)
            if sd is None or not contains(sd, lambda t: t.op == "draw") or not any(t.op == "draw" and contains(t, lambda u: u is seed_s) for t in walk(sd)):
                raise Bad("%s: the layer's random generator is seeded with %s, not from the factory's seed" % (at, sd), what)
            if sd in seeds:
                raise Bad("%s has the same random seed as an earlier layer" % at, what)
            seeds.append(sd)
            args[args.index(SEED)] = sd
        ref = s2.construct(l.cls, "reference%d" % i, args, ptypes=l.ptypes)
        if l.llr is not None:
            s2.run(s2.method(l.cls, "SetLocalLearningRate"), this=ref, args={0: l.llr}, cls=l.cls)
        d = objects_differ(s2, lp, s2, ref)
        if d:
            sure(*[x for x in d[1:] if x is not None])
            raise Bad("%s: %s is %s, the description asks for %s" % (at, d[0], d[1], d[2]), what)
    # training settings
    s.run(s.method(CF, "InitOptimalSettings"), this=fac, cls=CF)
    s3 = s.fork()
    s3.default_object(s3.obj("defaults"), "Conv::TrainerSettings")
    sf = s.method(CF, "optimal_settings")
    r = s.run(sf, this=fac, cls=CF).ret
    lv = r.a[0] if r.op == "val" else el(r)
    for fd in P.records["Conv::TrainerSettings"]["fields"]:
        k = fd["name"]
        have = s.E.load(fld(lv, k), s.st)
        want = s3.get(s3.obj("defaults"), k)
        if k in D.settings:
            v = D.settings[k]
            want = enum(P, v.upper()) if isinstance(v, str) else v
        sure(have)
        if have is not want:
            raise Bad("training setting %s is %s instead of %s" % (k, have, want), what)
    return len(nodes)


def name_of(t, got, dn):
    if t is dn:
        return "the data layer"
    return "node %d" % got.index(t) if t in got else str(t)


def nodes_of(s, g, P):
    f = [x for x in P.byq[GR + "::GetNodes"] if x.get("body") is not None][0]
    s2 = s.fork()
    r = s2.run(f, this=g, cls=GR).ret
    return s2.vec_items(r.a[0] if r.op == "addr" else el(r))


def seed_of(s, lp):
    for k, v in texts.flatten(s, lp).items():
        if v.op == "obj" and "mersenne_twister" in v.a[0]:
            return v.a[2] if len(v.a) > 2 else None
    return None


_enum = {}


def enum(P, name):
    if not _enum:
        for f in P.fns.values():
            for n in nodes(f.get("body")):
                if n.get("dk") == "enum" and "v" in n:
                    _enum[n["name"]] = num(int(n["v"]))
    if name in _enum:
        return _enum[name]
    raise AnalysisError("enumerator %s not found" % name)


def rng_functions(P):
    out = []
    for f in P.fns.values():
        for n in nodes(f.get("body")):
            g = n.get("fn")
            if g and "mersenne_twister_engine" in g["q"] and g["name"] == "operator()":
                out.append(g)
    return out


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


class Bad(Exception):
    def __init__(self, msg, what):
        self.msg, self.what = msg, what


def run(R):
    P = program("ref")
    R.configs.add("ref")
    R.assumptions += [
        "numerals stand for numbers of at least two (sizes, strides, factors) or at least one / zero; a padded kernel is larger than its padding",
        "bounded descriptions: generated lists of up to twenty lines; every number in them is arbitrary",
        "the completeness check itself is decided separately (P30)"]
    f = [x for x in P.byq[CF + "::AddLayers"] if x.get("body") is not None][0]
    where = "%s:%d" % (f["file"], f["line"])
    per = 30 if R.thorough else 8

    def group(gen):
        def g():
            n = 0
            for k in range(per):
                try:
                    n += scenario(P, R=R, **gen(k))
                except Bad as b:
                    return Verdict("different", "differs", {"what": b.msg, "where": b.what})
                except NeverReturns as e:
                    return Verdict("different", "ends in an exception", {"what": str(e)})
            R.count("layers_compared", n)
            return Verdict("equal", "%d descriptions, %d layers" % (per, n), points=per)
        return g
    base = 1000 * R.seed
    for name, gen in (
            ("plain networks", lambda k: dict(seed=base + k, patch=False, unit=True, classes=1 + k % 3, loss=k % 2 == 0)),
            ("pooled networks", lambda k: dict(seed=base + 100 + k, patch=False, unit=False, classes=1 + k % 3, loss=k % 2 == 0)),
            ("patch networks", lambda k: dict(seed=base + 200 + k, patch=True, unit=False, classes=1 + k % 3, loss=k % 2 == 0)),
            ("stacks", lambda k: dict(seed=base + 300 + k, patch=k % 3 == 2, unit=k % 2 == 0, classes=2, loss=True, kinds=["conv", "push", "push", "pop", "concat", "sum", "nl"], length=20 if k % 3 == 2 else 10,
             prefix=(["pusha", "nl", "pushb", "nl", "pusha", "pushb", "concatb", "suma"], ["pushb", "conv", "pusha", "nl", "pushb", "conv", "sumb", "concata"], ["pusha", "nl", "pushb", "nl", "pusha", "pushb", "nl", "popb", "popa", "nl", "popa", "nl", "popb", "pusha", "nl", "pushb", "concata", "sumb", "nl", "pushb", "concatb"])[k % 3])),
            ("spatial priors and upscaling", lambda k: dict(seed=base + 400 + k, patch=k % 3 == 2, unit=k % 4 == 0, classes=1 + k % 2, loss=k % 2 == 0, length=5, kinds=["pool", "prior", "upscale", "nl", "conv"] if k % 4 else ["prior", "upscale", "nl", "conv"],
             prefix=([], ["pool", "upscale"], ["pool", "prior"], ["pool", "upscale", "nl", "prior"])[k % 4])),
            ("networks for other purposes than training", lambda k: dict(seed=base + 900 + k, patch=False, training=False, unit=k % 2 == 0, classes=2, loss=False, length=3)),
            ("manual receptive fields", lambda k: dict(seed=base + 500 + k, patch=k % 2 == 1, unit=False, classes=2, loss=True, manual=True, length=4)),
            ("settings", lambda k: dict(seed=base + 600 + k, patch=False, unit=True, classes=2, loss=True, kinds=["setting"] * 5 + ["nl"], length=9)),
            ("convolutions", lambda k: dict(seed=base + 700 + k, patch=False, unit=k % 2 == 0, classes=5, loss=False, kinds=["conv", "fc", "conv"], length=3)),
            ("other layers", lambda k: dict(seed=base + 800 + k, patch=k % 2 == 1, unit=False, classes=2, loss=False, kinds=["lrn", "hmax", "apool", "down", "pool"], length=4))):
        R.guard(name, where, "the network has exactly the described layers, settings, connections, receptive field and outputs", group(gen))
