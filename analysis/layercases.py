"""Layer types as memory transformers: set-up of a symbolic layer instance and the
required definition of its forward and backward pass (specs/layers.cpp)."""
from terms import *
from engine import Engine, Effect
from session import Session, find_ctor, find_method
from program import program, AnalysisError
from compare import equiv, Verdict, Unknown, roots_of
import compare

N, M, W, H = [sym(x) for x in ("N", "M", "W", "H")]
MA, MB = sym("MA"), sym("MB")
RW, RH, SW, SH, PW, PH, K, KW, KH, G = [sym(x) for x in ("rw", "rh", "sw", "sh", "pw", "ph", "K", "kw", "kh", "G")]
BX, BY = sym("bx"), sym("by")
SIZE, ALPHA, BETA = sym("size"), sym("alpha"), sym("beta")
DROP, SEED = sym("dropout"), sym("seed")
TESTING = sym("testing")


class Case:
    def __init__(self, name, cls, ctor, inputs, points, fwd=None, bwd=None, dims=None, ptypes=None, fwd_outs=None,
                 backprop=None, status=False, extra_assume=(), ints=(), want=4):
        self.name, self.cls, self.ctor, self.inputs, self.points = name, cls, ctor, inputs, points
        self.fwd, self.bwd, self.dims = fwd, bwd, dims
        self.ptypes, self.backprop, self.status = ptypes, backprop, status
        self.extra_assume = extra_assume
        self.want = want


class Setup:
    pass


def tensor_ptr(sess, ten, which):
    """data pointer of a combined tensor's data or delta"""
    return sess.get(ten, which, "data_ptr_")


def data_ptr(sess, ten, which, cls="Conv::Tensor"):
    return sess.query(cls, "data_ptr_const", addr(fld(el(ten), which)), nparams=0)


def setup(case, config="ref", opaque=(), hooks=None, stop=None):
    prog = program(config)
    s = Session(prog, opaque=opaque, hooks=hooks)
    S = Setup()
    S.sess, S.case = s, case
    S.ins = [s.construct("Conv::CombinedTensor", "in%d" % i, list(d)) for i, d in enumerate(case.inputs)]
    S.layer = s.construct(case.cls, "layer", list(case.ctor), case.ptypes) if case.ptypes else s.construct(case.cls, "layer", list(case.ctor))
    inv, outv = s.vec("inputs", S.ins), s.vec("outputs", [])
    ok = lambda x: x.val is T or x.val.op not in ("false",)
    S.create = s.run(s.method(case.cls, "CreateOutputs"), this=S.layer, args={0: inv, 1: outv}, cls=case.cls, keep=truthy)
    S.create_pc = list(s.st.pc)
    S.outs = s.vec_items(outv)
    if S.outs is None:
        raise Unknown("number of outputs not determined")
    status = sym("status")
    if stop == "create":
        return S
    S.connect = s.run(s.method(case.cls, "Connect", 3), this=S.layer, args={0: inv, 1: outv, 2: status}, cls=case.cls, keep=truthy)
    S.params = s.vec_items(fld(el(S.layer), "parameters_"))
    return S


def truthy(x):
    return x.val is not F


def guarded_effects(es):
    return [e for e in es if e.kind == "store"]


def prelude(S):
    """stores made while the layer is connected, other than to tensors visible outside"""
    s = S.sess
    vis = set()
    for t in S.ins + S.outs + (S.params or []):
        for w in ("data", "delta"):
            try:
                vis.add(s.get(t, w, "data_ptr_"))
            except Exception:
                pass
    out = []
    for e in S.connect.effects:
        if e.kind == "store" and e.d["lv"].op == "el" and not (roots_of(e.d["lv"]) & vis):
            out.append(e)
    # pointers held by the objects of the session
    for lv, v in S.connect.post.env.items():
        if lv.op in ("fld", "el") and v.op in ("alloc", "addr", "ptr", "null", "vdata") and not (lv.op == "el" and roots_of(lv) & vis):
            out.append(Effect("store", (), (), 0, "", "", {"lv": lv, "val": v}, ()))
    return out


_spec_engine = []


def spec_effects(fname, args, st, unit=None):
    """effects of a reference definition applied to the given argument terms"""
    prog = program("spec")
    E = Engine(prog)
    E.uniq = 1000000 + len(_spec_engine) * 10000
    _spec_engine.append(E)
    f = prog.one("spec::" + fname)
    if len(f["params"]) != len(args):
        raise AnalysisError("spec %s takes %d arguments" % (fname, len(f["params"])))
    st = st.clone()
    st.dead = False
    sm = E.run(f, args=dict(enumerate(args)), st=st)
    return sm


def small(**bounds):
    """random assignment generator: name -> (lo, hi)"""
    def g(rng):
        return {sym(k): (rng.randint(*v) if isinstance(v[0], int) else rng.uniform(*v)) for k, v in bounds.items()}
    return g


def div(a, b):
    return idiv(a, b)


def cases():
    E = lambda: mul(mul(N, M), mul(W, H))
    base = dict(N=(1, 2), M=(1, 3), W=(1, 5), H=(1, 5))
    out = []
    simple = [(N, W, H, M)]
    OW, OH = div(W, RW), div(H, RH)
    out.append(Case("max pooling", "Conv::MaxPoolingLayer", [RW, RH], simple, small(rw=(1, 3), rh=(1, 3), **base),
                    fwd=lambda I, O, P: ("pool_fwd", [I[0], O[0], N, M, W, H, OW, OH, RW, RH, RW, RH]),
                    bwd=lambda I, O, DI, DO, P, DP: ("pool_bwd", [I[0], DO[0], DI[0], N, M, W, H, OW, OH, RW, RH, RW, RH]),
                    dims=[(N, OW, OH, M)]))
    AW = add(idiv(sub(W, RW), SW), ONE)
    AH = add(idiv(sub(H, RH), SH), ONE)
    out.append(Case("strided max pooling", "Conv::AdvancedMaxPoolingLayer", [RW, RH, SW, SH], simple,
                    small(rw=(1, 3), rh=(1, 3), sw=(1, 3), sh=(1, 3), **base),
                    fwd=lambda I, O, P: ("pool_fwd", [I[0], O[0], N, M, W, H, AW, AH, RW, RH, SW, SH]),
                    bwd=lambda I, O, DI, DO, P, DP: ("pool_bwd", [I[0], DO[0], DI[0], N, M, W, H, AW, AH, RW, RH, SW, SH]),
                    dims=[(N, AW, AH, M)],
                    extra_assume=[ge0(sub(W, RW)), ge0(sub(H, RH))], want=8))
    out.append(Case("concatenation", "Conv::ConcatenationLayer", [], [(N, W, H, MA), (N, W, H, MB)],
                    small(MA=(1, 3), MB=(1, 3), **base),
                    fwd=lambda I, O, P: ("concat_fwd", [I[0], I[1], O[0], N, MA, MB, W, H]),
                    bwd=lambda I, O, DI, DO, P, DP: ("concat_bwd", [DI[0], DI[1], DO[0], N, MA, MB, W, H]),
                    dims=[(N, W, H, add(MA, MB))]))
    out.append(Case("sum", "Conv::SumLayer", [], [(N, W, H, M), (N, W, H, M)], small(**base),
                    fwd=lambda I, O, P: ("sum_fwd", [I[0], I[1], O[0], N, M, W, H]),
                    bwd=lambda I, O, DI, DO, P, DP: ("sum_bwd", [DI[0], DI[1], DO[0], N, M, W, H]),
                    dims=[(N, W, H, M)]))
    for k in (2, 3):
        out.append(Case("gradient accumulation, %d consumers" % k, "Conv::GradientAccumulationLayer", [num(k)], simple, small(**base),
                        fwd=None, ptypes=["unsigned int"],
                        bwd=lambda I, O, DI, DO, P, DP, k=k: ("accum_bwd%d" % k, [DI[0]] + list(DO) + [E()]),
                        dims=[(N, W, H, M)] * k))
    out.append(Case("resize", "Conv::ResizeLayer", [BX, BY], simple, small(bx=(0, 4), by=(0, 4), **base),
                    fwd=lambda I, O, P: ("resize_fwd", [I[0], O[0], N, M, W, H, add(W, BX), add(H, BY), idiv(BX, num(2)), idiv(BY, num(2))]),
                    bwd=lambda I, O, DI, DO, P, DP: ("resize_bwd", [DI[0], DO[0], N, M, W, H, add(W, BX), add(H, BY), idiv(BX, num(2)), idiv(BY, num(2))]),
                    dims=[(N, add(W, BX), add(H, BY), M)]))
    out.append(Case("upscale", "Conv::UpscaleLayer", [RW, RH], simple, small(rw=(1, 3), rh=(1, 3), **base),
                    fwd=lambda I, O, P: ("up_fwd", [I[0], O[0], N, M, W, H, RW, RH]),
                    bwd=lambda I, O, DI, DO, P, DP: ("up_bwd", [DI[0], DO[0], N, M, W, H, RW, RH]),
                    dims=[(N, mul(W, RW), mul(H, RH), M)]))
    out.append(Case("input down-sampling", "Conv::InputDownSamplingLayer", [RW, RH], simple, small(rw=(1, 3), rh=(1, 3), **base),
                    fwd=lambda I, O, P: ("down_fwd", [I[0], O[0], N, M, W, H, OW, OH, RW, RH]),
                    dims=[(N, OW, OH, M)]))
    out.append(Case("spatial prior", "Conv::SpatialPriorLayer", [], simple, small(**base),
                    fwd=lambda I, O, P: ("prior_fwd", [I[0], O[0], N, M, W, H]),
                    bwd=lambda I, O, DI, DO, P, DP: ("prior_bwd", [DI[0], DO[0], N, M, W, H]),
                    dims=[(N, W, H, add(M, num(2)))]))
    for n, c in (("tanh", "Conv::TanhLayer"), ("sigm", "Conv::SigmoidLayer"), ("relu", "Conv::ReLULayer")):
        out.append(Case({"tanh": "hyperbolic tangent", "sigm": "sigmoid", "relu": "rectified linear"}[n], c, [mk("str", "")], simple, small(**base),
                        fwd=lambda I, O, P, n=n: (n + "_fwd", [I[0], O[0], E()]),
                        bwd=lambda I, O, DI, DO, P, DP, n=n: (n + "_bwd", [DI[0], I[0], DO[0], E()]),
                        dims=[(N, W, H, M)]))
    out.append(Case("softmax", "Conv::SoftmaxLayer", [mk("str", "")], [(N, W, ONE, ONE)], small(**base),
                    fwd=lambda I, O, P: ("softmaxw_fwd", [I[0], O[0], N, W]),
                    bwd=lambda I, O, DI, DO, P, DP: ("pass_bwd", [DI[0], DO[0], mul(N, W)]), dims=[(N, W, ONE, ONE)]))
    for i, n in ((1, "within"), (0, "across")):
        out.append(Case("local response normalisation " + n + " channels", "Conv::LocalResponseNormalizationLayer", [SIZE, ALPHA, BETA, num(i)], simple,
                        small(size=(1, 4), alpha=(0.1, 0.9), beta=(0.3, 1.2), N=(1, 2), M=(1, 3), W=(1, 4), H=(1, 4)),
                        fwd=lambda I, O, P, n=n: ("lrn_%s_fwd" % n, [I[0], O[0], N, M, W, H, SIZE, ALPHA, BETA]),
                        bwd=lambda I, O, DI, DO, P, DP, n=n: ("lrn_%s_bwd" % n, [I[0], DO[0], DI[0], N, M, W, H, SIZE, ALPHA, BETA]),
                        dims=[(N, W, H, M)], want=6))
    CW = add(idiv(sub(add(add(PW, PW), W), KW), SW), ONE)
    CH = add(idiv(sub(add(add(PH, PH), H), KH), SH), ONE)
    tst = mk("tb", sym("testing"))
    out.append(Case("convolution", "Conv::ConvolutionLayer", [KW, KH, K, SW, SH, PW, PH, G, SEED, DROP], simple,
                    lambda rng: conv_points(rng),
                    fwd=lambda I, O, P: ("conv_fwd", [I[0], P[0], P[1], O[0], N, M, W, H, K, KW, KH, SW, SH, PW, PH, G, CW, CH,
                                                      ite(TESTB(), sub(ONE, DROP), ONE)]),
                    bwd=lambda I, O, DI, DO, P, DP: [("conv_bwd_in", [DI[0], P[0], DO[0], N, M, W, H, K, KW, KH, SW, SH, PW, PH, G, CW, CH]),
                                                     ("conv_bwd_par", [I[0], DP[0], DP[1], DO[0], N, M, W, H, K, KW, KH, SW, SH, PW, PH, G, CW, CH])],
                    dims=[(N, CW, CH, K)], want=10,
                    extra_assume=[ge0(sub(CW, ONE)), ge0(sub(CH, ONE)),
                                  ge0(sub(add(add(PW, PW), W), KW)), ge0(sub(add(add(PH, PH), H), KH))]))
    out.append(Case("H-Max activation", "Conv::HMaxActivationFunction", [sym("mu"), ZERO], simple, small(**base),
                    fwd=lambda I, O, P: ("hmax_fwd", [I[0], P[0], O[0], E()]),
                    bwd=lambda I, O, DI, DO, P, DP: ("hmax_bwd", [I[0], P[0], DO[0], DI[0], DP[0], E()]),
                    dims=[(N, W, H, M)], ptypes=["float", "float"]))
    return out


def TESTB():
    # value of NetStatus::IsTesting of the status object the layer was connected to
    return mk("tb", mk("ld", fld(el(sym("status")), "is_testing_"), ()))


def conv_points(rng):
    g = rng.randint(1, 2)
    return {G: g, M: g * rng.randint(1, 2), K: g * rng.randint(1, 2), N: rng.randint(1, 2),
            W: rng.randint(1, 4), H: rng.randint(1, 4), KW: rng.randint(1, 3), KH: rng.randint(1, 3),
            SW: rng.randint(1, 2), SH: rng.randint(1, 2), PW: rng.randint(0, 2), PH: rng.randint(0, 2),
            SEED: 1, DROP: 0}


def ptrs(s, ts, which):
    return [data_ptr(s, t, which) for t in ts]


def forward(S, seed=1):
    """run FeedForward and compare its effect on the outputs with the definition"""
    s, case = S.sess, S.case
    I, O, P = ptrs(s, S.ins, "data"), ptrs(s, S.outs, "data"), ptrs(s, S.params or [], "data")
    pre = s.st.clone()
    S.ff = s.run(s.method(case.cls, "FeedForward"), this=S.layer, cls=case.cls)
    if case.fwd is None:
        return None
    fname, args = case.fwd(I, O, P)
    sp = spec_effects(fname, args, pre)
    # inputs and parameters have to be left alone
    return compare.equiv(S.ff.effects, sp.effects, O + I + P, case.points, list(s.assumptions()) + list(case.extra_assume),
                         seed=seed, want=case.want, prelude=prelude(S))


def backward(S, seed=1):
    s, case = S.sess, S.case
    I, O, P = ptrs(s, S.ins, "data"), ptrs(s, S.outs, "data"), ptrs(s, S.params or [], "data")
    DI, DO, DP = ptrs(s, S.ins, "delta"), ptrs(s, S.outs, "delta"), ptrs(s, S.params or [], "delta")
    pre = s.st.clone()
    S.bp = s.run(s.method(case.cls, "BackPropagate"), this=S.layer, cls=case.cls)
    out = []
    specs = case.bwd(I, O, DI, DO, P, DP)
    if not isinstance(specs, list):
        specs = [specs]
    eff = []
    for fname, args in specs:
        eff += spec_effects(fname, args, pre).effects
    regs = DI + DP
    return compare.equiv(S.bp.effects, eff, regs + DO + P, case.points, list(s.assumptions()) + list(case.extra_assume),
                         seed=seed + 17, want=case.want, prelude=prelude(S) + S.ff.effects)
