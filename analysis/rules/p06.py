"""Shapes layers announce, and tensors they refuse."""
import layercases as L
from layercases import *
from terms import *
from session import Session
from program import program
from compare import values_agree, Verdict, Unknown, cnum, Ctx
import random

MIN = 30


def accepted(r):
    """condition under which the call comes back with true"""
    return or_(*[and_(*(list(x.st.pc) + [to_bool(x.val)])) for x in r.exits if x.kind == "return"])


S2, W2, H2, M2 = [sym(x) for x in ("N2", "W2", "H2", "M2")]
OUT = [S2, W2, H2, M2]


class Contract:
    """one layer type: accept(a): inputs are acceptable at assignment a; dims(a): required output shapes"""
    def __init__(self, name, cls, ctor, nin, pts, accept, dims, ptypes=None, strict=True, same=()):
        self.name, self.cls, self.ctor, self.nin, self.pts = name, cls, ctor, nin, pts
        self.accept, self.dims, self.ptypes, self.strict = accept, dims, ptypes, strict


def in_dims(i):
    return [sym("%s%s" % (x, "abc"[i])) for x in ("N", "W", "H", "M")]


def contracts():
    A = lambda a, i=0: tuple(a[x] for x in in_dims(i))
    par = lambda **k: (lambda rng: {sym(n): rng.randint(*v) for n, v in k.items()})
    none = lambda rng: {}
    out = []
    yes = lambda a: True
    same = lambda a: [A(a)]

    def region(a):
        return a[RW], a[RH]
    out.append(Contract("max pooling", "Conv::MaxPoolingLayer", [RW, RH], 1, par(rw=(1, 3), rh=(1, 3)),
                        lambda a: A(a)[1] % a[RW] == 0 and A(a)[2] % a[RH] == 0,
                        lambda a: [(A(a)[0], A(a)[1] // a[RW], A(a)[2] // a[RH], A(a)[3])]))
    out.append(Contract("strided max pooling", "Conv::AdvancedMaxPoolingLayer", [RW, RH, SW, SH], 1, par(rw=(1, 3), rh=(1, 3), sw=(1, 3), sh=(1, 3)),
                        lambda a: A(a)[1] >= a[RW] and A(a)[2] >= a[RH],
                        lambda a: [(A(a)[0], (A(a)[1] - a[RW]) // a[SW] + 1, (A(a)[2] - a[RH]) // a[SH] + 1, A(a)[3])]))
    out.append(Contract("input down-sampling", "Conv::InputDownSamplingLayer", [RW, RH], 1, par(rw=(1, 3), rh=(1, 3)),
                        lambda a: A(a)[1] % a[RW] == 0 and A(a)[2] % a[RH] == 0,
                        lambda a: [(A(a)[0], A(a)[1] // a[RW], A(a)[2] // a[RH], A(a)[3])]))
    out.append(Contract("upscale", "Conv::UpscaleLayer", [RW, RH], 1, par(rw=(1, 3), rh=(1, 3)), yes,
                        lambda a: [(A(a)[0], A(a)[1] * a[RW], A(a)[2] * a[RH], A(a)[3])]))
    out.append(Contract("resize", "Conv::ResizeLayer", [BX, BY], 1, par(bx=(0, 4), by=(0, 4)), yes,
                        lambda a: [(A(a)[0], A(a)[1] + a[BX], A(a)[2] + a[BY], A(a)[3])]))
    out.append(Contract("spatial prior", "Conv::SpatialPriorLayer", [], 1, none, yes,
                        lambda a: [A(a)[:3] + (A(a)[3] + 2,)]))
    for n, c in (("hyperbolic tangent", "Conv::TanhLayer"), ("sigmoid", "Conv::SigmoidLayer"), ("rectified linear", "Conv::ReLULayer"),
                 ("softmax", "Conv::SoftmaxLayer")):
        out.append(Contract(n, c, [mk("str", "")], 1, none, yes, same))
    out.append(Contract("H-Max activation", "Conv::HMaxActivationFunction", [sym("mu"), ZERO], 1, none, yes, same, ptypes=["float", "float"]))
    out.append(Contract("local response normalisation", "Conv::LocalResponseNormalizationLayer", [SIZE, ALPHA, BETA, ONE], 1, par(size=(1, 3)), yes, same))

    def cdim(i, p, k, s):
        return (2 * p + i - k) // s + 1

    def cpts(rng):
        return {KW: rng.randint(1, 4), KH: rng.randint(1, 4), K: 2 * rng.randint(1, 2), SW: rng.randint(1, 3), SH: rng.randint(1, 3),
                PW: rng.randint(0, 1), PH: rng.randint(0, 1), G: 1 if rng.random() < 0.7 else 2, SEED: 1, DROP: 0}
    out.append(Contract("convolution", "Conv::ConvolutionLayer", [KW, KH, K, SW, SH, PW, PH, G, SEED, DROP], 1, cpts,
                        lambda a: 2 * a[PW] + A(a)[1] >= a[KW] and 2 * a[PH] + A(a)[2] >= a[KH] and A(a)[3] % a[G] == 0,
                        lambda a: [(A(a)[0], cdim(A(a)[1], a[PW], a[KW], a[SW]), cdim(A(a)[2], a[PH], a[KH], a[SH]), a[K])]))
    eq = lambda a, n: A(a, 0)[:n] == A(a, 1)[:n]
    out.append(Contract("concatenation", "Conv::ConcatenationLayer", [], 2, none, lambda a: eq(a, 3),
                        lambda a: [A(a)[:3] + (A(a)[3] + A(a, 1)[3],)], strict=False))
    out.append(Contract("sum", "Conv::SumLayer", [], 2, none, lambda a: eq(a, 4), same, strict=False))
    out.append(Contract("gradient accumulation", "Conv::GradientAccumulationLayer", [num(2)], 1, none, yes, lambda a: [A(a), A(a)],
                        ptypes=["unsigned int"], strict=False))

    # one weight per position (error, confusion matrix) or per element (binary statistics, which needs no particular shape)
    def three(a):
        return A(a)[0] == A(a, 1)[0] == A(a, 2)[0] and A(a) == A(a, 1) and A(a, 2)[1] >= A(a)[1] and A(a, 2)[2] >= A(a)[2]

    def per_element(a):
        return A(a)[0] == A(a, 1)[0] == A(a, 2)[0] and A(a) == A(a, 1) and cells(A(a, 2)) >= cells(A(a))
    out.append(Contract("error", "Conv::ErrorLayer", [sym("lw")], 3, none, three, lambda a: [], strict=False))
    out.append(Contract("binary statistics", "Conv::BinaryStatLayer", [num(3), sym("lo"), sym("hi")], 3, none, per_element, lambda a: [], strict=False))
    out.append(Contract("confusion matrix", "Conv::ConfusionMatrixLayer", ["names", sym("classes")], 3, par(classes=(1, 6)),
                        lambda a: three(a) and A(a)[3] <= a[sym("classes")], lambda a: [], strict=False))
    return out


def cells(d):
    return d[0] * d[1] * d[2] * d[3]


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["dimensions and layer parameters are exact integers of at least one (borders and padding: at least zero)",
                      "where every access stays inside the tensors although shapes differ, the statistics layers are free to accept or refuse"]
    n = 400 if R.thorough else 120

    def point(c, rng, accept=None):
        a = {}
        for i in range(3):
            if i and rng.random() < 0.6:
                a.update({x: a[y] for x, y in zip(in_dims(i), in_dims(i - 1))})
                if rng.random() < 0.4:
                    a[in_dims(i)[rng.randint(0, 3)]] = rng.randint(1, 5)
            else:
                a.update({x: rng.randint(1, 6) for x in in_dims(i)})
        a.update({x: rng.randint(1, 2) for x in (ALPHA, BETA, sym("mu"))})
        a.update(c.pts(rng))
        return a

    def session(c):
        s = Session(prog)
        ins = [s.construct("Conv::CombinedTensor", "in%d" % i, in_dims(i)) for i in range(c.nin)]
        layer = s.construct(c.cls, "layer", [s.vec("names", []) if x == "names" else x for x in c.ctor], c.ptypes)
        s.nonempty = s.nonempty[:]
        return s, ins, layer

    def decide(c, cond, want_fn, what, tries=None):
        """cond has to have the truth value want_fn(a) (None: free) at every point"""
        rng = random.Random(R.seed + 11)
        hit = {True: 0, False: 0}
        unk, why = 0, None
        for _ in range((tries or n) * 8):
            if sum(hit.values()) >= (tries or n):
                break
            a = point(c, rng)
            w = want_fn(a)
            if w is None:
                continue
            if isinstance(w, tuple):
                w, extra = w
                a = dict(a)
                a.update(extra)
            if hit[w] > 2 * min(hit.values()) + 30:
                continue
            try:
                v = bool(cnum(ind(cond))(Ctx(dict(a), 3)))
            except Unknown as e:
                unk += 1
                why = str(e)
                if unk > 40:
                    break
                continue
            if v != w:
                return Verdict("different", None, {"point": {show(k): z for k, z in a.items() if not show(k)[-1] in "bc"[c.nin - 1:]},
                                                   "what": what, "implementation": "accepted" if v else "refused", "required": "accepted" if w else "refused"})
            hit[w] += 1
        if sum(hit.values()) == 0 or unk > sum(hit.values()) // 4:
            return Verdict("undecided", "%s (%d points)" % (why, unk))
        return Verdict("equal", "identity test" if cond.op not in ("true", "false") else "normal form", points=sum(hit.values()))

    def create(c):
        s, ins, layer = session(c)
        f = s.method(c.cls, "CreateOutputs")
        r = s.run(f, this=layer, args={0: s.vec("inputs", ins), 1: s.vec("outputs", [])}, cls=c.cls)
        R.uses(*s.fns)
        return decide(c, accepted(r), lambda a: free(c, a), "inputs offered to CreateOutputs")

    def free(c, a):
        """None: accepting and refusing are both safe (every access stays inside the tensors)"""
        ok = c.accept(a)
        if c.nin == 3:
            p, q, w = [tuple(a[x] for x in in_dims(i)) for i in range(3)]
            if not p[0] == q[0] == w[0] or cells(p) != cells(q):
                return False
            if ok:
                return True if p[1:3] == w[1:3] or c.name == "binary statistics" else None
            if c.name == "binary statistics":
                return None if cells(w) >= cells(p) else False
            return False
        return ok

    def shape(c):
        s, ins, layer = session(c)
        outv = s.vec("outputs", [])
        r = s.run(s.method(c.cls, "CreateOutputs"), this=layer, args={0: s.vec("inputs", ins), 1: outv}, cls=c.cls, keep=truthy)
        outs = s.vec_items(outv)
        if outs is None:
            raise Unknown("number of outputs not determined")
        rng = random.Random(R.seed + 5)
        q = [[s.query("Conv::Tensor", d, addr(fld(el(o), w)), nparams=0) for d in ("samples", "width", "height", "maps")]
             for o in outs for w in ("data", "delta")]
        done, unk = 0, None
        for _ in range(n * 10):
            if done >= n:
                break
            a = point(c, rng)
            if not c.accept(a):
                continue
            want = c.dims(a)
            if len(want) != len(outs):
                return Verdict("different", None, {"what": "number of outputs", "implementation": len(outs), "required": len(want)})
            for i, t in enumerate(q):
                try:
                    have = tuple(cnum(x)(Ctx(dict(a), 3)) for x in t)
                except Unknown as e:
                    unk = str(e)
                    break
                if have != tuple(want[i // 2]):
                    return Verdict("different", None, {"point": {show(k): z for k, z in a.items()}, "output": i // 2, "part": ("data", "delta")[i % 2],
                                                       "implementation": have, "required": want[i // 2]})
            else:
                done += 1
        return Verdict("equal", "identity test", points=done) if done >= n // 2 else Verdict("undecided", unk or "no admissible point")

    def connect(c):
        """outputs of every shape are offered"""
        s, ins, layer = session(c)
        k = 2 if c.name == "gradient accumulation" else 0 if c.nin == 3 else 1
        outs = [s.construct("Conv::CombinedTensor", "out%d" % i, OUT) for i in range(k)]
        r = s.run(s.method(c.cls, "Connect", 3), this=layer, args={0: s.vec("inputs", ins), 1: s.vec("outputs", outs), 2: sym("status")}, cls=c.cls)
        R.uses(*s.fns)
        rng = random.Random(R.seed + 23)

        def want(a):
            if c.nin == 3:
                return free(c, a)
            if not c.accept(a):
                return None
            d = list(c.dims(a)[0])
            z = rng.random()
            if z < 0.5:
                d[rng.randint(0, 3)] += rng.choice((1, 2, -1))
                if min(d) < 1:
                    return None
            if z > 0.85:
                rng.shuffle(d)
            ok = tuple(d) == tuple(c.dims(a)[0])
            if not ok and not c.strict:
                w = c.dims(a)[0]
                if d[0] * d[1] * d[2] * d[3] == w[0] * w[1] * w[2] * w[3]:
                    return None
            return ok, dict(zip(OUT, d))
        return decide(c, accepted(r), want, "output offered to Connect")

    def count(c, phase, nin, nout, null_in=None, null_out=None):
        def g():
            s, ins, layer = session(c)
            a = list(ins)
            while len(a) < nin:
                a.append(s.construct("Conv::CombinedTensor", "in%d" % len(a), in_dims(0)))
            a = a[:nin]
            if null_in is not None:
                a[null_in] = NULL
            if phase == "CreateOutputs":
                args = {0: s.vec("inputs", a), 1: s.vec("outputs", [])}
            else:
                outs = [s.construct("Conv::CombinedTensor", "out%d" % i, OUT) for i in range(nout)]
                if null_out is not None:
                    outs[null_out] = NULL
                args = {0: s.vec("inputs", a), 1: s.vec("outputs", outs), 2: sym("status")}
            r = s.run(s.method(c.cls, phase, len(args)), this=layer, args=args, cls=c.cls)

            if null_in is not None or null_out is not None:
                seen = set()
                terms = [t for x in r.exits for t in list(x.st.pc) + [x.val]] + [v for e in r.effects for v in e.d.values()]
                for t in terms:
                    if isinstance(t, (Term, tuple)):
                        for x in walk(t, seen):
                            if x.op == "el" and x.a[0] is NULL:
                                return Verdict("different", None, {"what": "a null pointer is dereferenced: " + show(x)[:80]})

            def want(a):
                d = dict(zip(OUT, c.dims(a)[0])) if c.nin < 3 and c.accept(a) else {}
                return (False, d) if d or c.nin == 3 else None
            return decide(c, accepted(r), want, "%d inputs%s, %d outputs%s" % (nin, " (one null)" if null_in is not None else "", nout, " (one null)" if null_out is not None else ""), 30)
        return g

    for c in contracts():
        def at(name, np=None):
            f = find_method(prog, c.cls, name, np)
            return "%s:%d" % (f["file"], f["line"])
        R.guard(c.name + ": inputs accepted", at("CreateOutputs"), "inputs are accepted exactly when the layer is defined for their shapes", lambda: create(c))
        if c.nin < 3:
            R.guard(c.name + ": output shape", at("CreateOutputs"), "outputs (data and gradient) have the shape the definition prescribes", lambda: shape(c))
        R.guard(c.name + ": tensors connected", at("Connect", 3), "tensors are connected exactly when their shapes fit the definition", lambda: connect(c))
        REF = "wrong numbers of tensors and null pointers are refused"
        k = 2 if c.name == "gradient accumulation" else 0 if c.nin == 3 else 1
        for ni in (0, c.nin - 1, c.nin + 1):
            if ni == c.nin or ni == 0 and c.nin == 1 and False:
                continue
            R.guard("%s: CreateOutputs with %d inputs" % (c.name, ni), at("CreateOutputs"), REF, count(c, "CreateOutputs", ni, 0))
            R.guard("%s: Connect with %d inputs" % (c.name, ni), at("Connect", 3), REF, count(c, "Connect", ni, k))
        for i in range(c.nin):
            R.guard("%s: CreateOutputs with null input %d" % (c.name, i), at("CreateOutputs"), REF, count(c, "CreateOutputs", c.nin, 0, i))
            R.guard("%s: Connect with null input %d" % (c.name, i), at("Connect", 3), REF, count(c, "Connect", c.nin, k, i))
        for no in {max(0, k - 1), k + 1} - {k}:
            R.guard("%s: Connect with %d outputs" % (c.name, no), at("Connect", 3), REF, count(c, "Connect", c.nin, no))
        for i in range(k):
            R.guard("%s: Connect with null output %d" % (c.name, i), at("Connect", 3), REF, count(c, "Connect", c.nin, k, None, i))

    def user_input(k):
        def g():
            s = Session(prog)
            ts = [s.construct("Conv::Tensor", "user%d" % i, in_dims(0)[:1] + in_dims(i if i < 3 else 0)[1:]) for i in range(k)]
            layer = s.construct("Conv::InputLayer", "layer", [el(t) for t in ts])
            outv = s.vec("outputs", [])
            s.run(s.method("Conv::InputLayer", "CreateOutputs"), this=layer, args={0: s.vec("inputs", []), 1: outv}, cls="Conv::InputLayer", keep=truthy)
            R.uses(*s.fns)
            outs = s.vec_items(outv)
            if outs is None or len(outs) != 4:
                return Verdict("different", None, {"what": "number of outputs", "implementation": outs and len(outs), "required": 4})
            # data, label, helper, weight; the two-tensor form has data and helper only
            pairs = []
            for t, i in zip(ts, (0, 2) if k == 2 else (0, 1, 2, 3)):
                for w in ("data",):
                    o = addr(fld(el(outs[i]), w))
                    pairs += [(s.query("Conv::Tensor", d, o, nparams=0), s.query("Conv::Tensor", d, t, nparams=0)) for d in ("samples", "width", "height", "maps")]
                    a, b = s.query("Conv::Tensor", "data_ptr_const", o, nparams=0), s.query("Conv::Tensor", "data_ptr_const", t, nparams=0)
                    if a is not b:
                        return Verdict("different", None, {"what": "output %d does not present the user's tensor" % i, "implementation": show(a), "required": show(b)})
            return values_agree(pairs, lambda rng: {x: rng.randint(1, 5) for i in range(3) for x in in_dims(i)})
        return g
    f = prog.byq["Conv::InputLayer::CreateOutputs"][0]
    for k in (2, 4):
        R.guard("user input of %d tensors" % k, "%s:%d" % (f["file"], f["line"]), "outputs present the user's tensors in the order data, label, helper, weight", user_input(k))
