"""Error layer: loss and gradient."""
from terms import *
from session import Session
from program import program
from compare import equiv, Verdict
from layercases import spec_effects, truthy

MIN = 4
C_, L_, T_ = "Conv::CombinedTensor", "Conv::ErrorLayer", "Conv::Tensor"


def run(R):
    R.assumptions += ["real arithmetic: rounding is outside the summaries", "prediction, label and weights are different tensors that own their memory",
                      "the weight tensor covers every position (Connect refuses others: P06)"]
    want = 300 if R.thorough else 80
    N, W, H, M, W3, H3, M3, LW = [sym(x) for x in ("N", "W", "H", "M", "W3", "H3", "M3", "lw")]

    def pts(rng):
        a = {x: rng.randint(1, 3) for x in (N, W, H, M)}
        a[W3], a[H3], a[M3] = a[W] + rng.choice((0, 0, 1)), a[H] + rng.choice((0, 0, 1)), rng.choice((1, 1, 2, 3))
        a[LW] = rng.choice((1.0, 0.5, -2.25))
        return a

    def ready(cfg):
        prog = program(cfg)
        R.configs.add(cfg)
        s = Session(prog)
        ins = [s.construct(C_, "in%d" % i, d) for i, d in enumerate(([N, W, H, M], [N, W, H, M], [N, W3, H3, M3]))]
        layer = s.construct(L_, "layer", [LW])
        s.run(s.method(L_, "CreateOutputs"), this=layer, args={0: s.vec("inputs", ins), 1: s.vec("outputs", [])}, cls=L_, keep=truthy)
        s.run(s.method(L_, "Connect", 3), this=layer, args={0: s.vec("inputs", ins), 1: s.vec("outputs", []), 2: sym("status")}, cls=L_, keep=truthy)
        p = {(i, w): s.query(T_, "data_ptr_const", addr(fld(el(ins[i]), w)), nparams=0) for i in range(3) for w in ("data", "delta")}
        return s, layer, p

    def go(cfg, phase):
        def g():
            s, layer, p = ready(cfg)
            pre = s.st.clone()
            r = s.run(s.method(L_, phase, 0), this=layer, cls=L_)
            R.uses(*s.fns)
            R.uses(*sorted(s.E.inlined))
            base = [p[0, "data"], p[1, "data"], p[2, "data"]]
            dims = [N, M, W, H, W3, H3, M3]
            if phase == "FeedForward":
                sp = spec_effects("error_fwd", base + [p[0, "delta"], LW] + dims, pre).effects
                sc = []
            elif phase == "CalculateLossFunction":
                sp = []
                sc = [(r.ret, spec_effects("error_loss", base + [LW] + dims, pre).ret)]
            else:
                sp, sc = [], []
            return equiv(r.effects, sp, list(p.values()), pts, s.assumptions(), seed=R.seed, want=want, scalars=sc)
        return g

    RULES = {"FeedForward": "gradient of the prediction is (prediction - label) * weight * factor at every element and nothing else is written",
             "CalculateLossFunction": "the result is half the weighted sum of squared differences and nothing is written",
             "BackPropagate": "the gradients of the forward pass stay as they are"}
    for cfg in ("ref", "omp"):
        prog = program(cfg)
        for phase, rule in RULES.items():
            f = prog.byq[L_ + "::" + phase][0]
            R.guard("%s (%s)" % (phase, cfg), "%s:%d" % (f["file"], f["line"]), rule, go(cfg, phase))
