"""Reported recognition statistics."""
from terms import *
from session import Session
from program import program
from compare import at_points, Verdict, Unknown, Poison, cnum, cptr, asint
from layercases import truthy

MIN = 9
C_, T_ = "Conv::CombinedTensor", "Conv::Tensor"
N, W, H, M, W3, H3, CL, TH, LO, HI, V = [sym(x) for x in ("N", "W", "H", "M", "W3", "H3", "classes", "thresholds", "lo", "hi", "v")]

# "new": the prediction tensor receives other contents
SCENARIOS = {"one pass": ["FeedForward"], "two passes": ["FeedForward", "new", "FeedForward"],
             "reset between passes": ["FeedForward", "Reset", "new", "FeedForward"],
             "collection switched off": ["FeedForward", "off", "new", "FeedForward"],
             "collection switched off and on": ["off", "FeedForward", "new", "on", "FeedForward"],
             "no pass": []}


def passes(sc):
    """counted passes: True where the prediction has its first contents"""
    n, on, first = [], True, True
    for x in sc:
        if x == "FeedForward":
            n += [first] if on else []
        elif x == "Reset":
            n = []
        elif x == "new":
            first = False
        else:
            on = x == "on"
    return n


def confusion_values(preds, b, w, d):
    """preds: prediction of every counted pass; element (n,m,y,x) -> value"""
    S, Wd, Hd, Md, C = d
    mat = {}
    for a in preds:
        for s in range(S):
            for y in range(Hd):
                for x in range(Wd):
                    am = lambda f: max(range(Md), key=lambda m: (f(s, m, y, x), -m))
                    p, q = am(a), am(b)
                    mat[p, q] = mat.get((p, q), 0) + w(s, 0, y, x)
    total = sum(mat.values())
    out = {}
    if total <= 0:
        return {"Overall Recognition Rate": None, "Average Recognition Rate": None, "Average Intersection over Union": None}
    out["Overall Recognition Rate"] = 100 * sum(v for (p, q), v in mat.items() if p == q) / total
    rates = []
    for c in range(C):
        t = sum(v for (p, q), v in mat.items() if q == c)
        if t > 0:
            rates.append(mat.get((c, c), 0) / t)
    out["Average Recognition Rate"] = 100 * sum(rates) / len(rates)
    iou = 0
    for c in range(C):
        u = sum(v for (p, q), v in mat.items() if p == c or q == c)
        if u > 0:
            iou += mat.get((c, c), 0) / u
    out["Average Intersection over Union"] = 100 * iou / C
    return None if total < 1 else out


def binary_values(preds, b, w, count, lo, hi, T_):
    best = None
    for t in range(T_):
        th = (lo + hi) / 2 if T_ == 1 else lo + (hi - lo) / (T_ - 1) * t
        tp = fp = tn = fn = 0
        for a, i in [(a, i) for a in preds for i in range(count)]:
            v = w(i)
            if a(i) > th:
                if b(i) > 0:
                    tp += v
                else:
                    fp += v
            elif b(i) > 0:
                fn += v
            else:
                tn += v
        f1 = -1
        pr = tp / (tp + fp) if tp + fp > 0 else None
        re = tp / (tp + fn) if tp + fn > 0 else None
        if pr is not None and re is not None:
            f1 = 2 * pr * re / (pr + re) if pr + re > 0 else 0
        if best is None or f1 > best[0] + 1e-9:
            best = (f1, tp, fp, tn, fn, pr, re)
        elif abs(f1 - best[0]) < 1e-9 and (tp, fp, tn, fn) != best[1:5]:
            # rounding decides between the thresholds: not a usable point
            if f1 > 0:
                return None
    f1, tp, fp, tn, fn, pr, re = best
    pc = lambda v: None if v is None else 100 * v
    return {"F1 Value": None if f1 < 0 else 100 * f1, "Precision": pc(pr), "Recall": pc(re),
            "False Positive Rate": pc(fp / (fp + tn) if fp + tn > 0 else None),
            "False Negative Rate": pc(fn / (tp + fn) if tp + fn > 0 else None),
            **({"Accuracy": pc((tp + tn) / (tp + tn + fp + fn))} if tp + tn + fp + fn > 0 else {})}


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["real arithmetic", "weights are not negative", "accuracy without any weight is not looked at (comparisons with not-a-number are outside the terms)", "a total weight between zero and one may be reported or not",
                      "the registered statistic is identified by its description"]
    want = 80 if R.thorough else 24

    def scenario(cls, ctor, dims, sc):
        regs = []

        def reg(E, fn, obj, args, n, st):
            d = E.ev(args[0], st) if isinstance(args[0], dict) else args[0]
            t = E.load(fld(el(d), "description"), st)
            if t.op != "str":
                raise Unknown("description of a statistic is not a literal")
            regs.append(str(t.a[0]))
            i = num(100 + len(regs))
            st.env[fld(el(d), "stat_id")] = i
            return i
        s = Session(prog, opaque=("Conv::StatAggregator::Update",), hooks={"Conv::StatAggregator::RegisterStat": reg})
        ins = [s.construct(C_, "in%d" % i, d) for i, d in enumerate(dims)]
        layer = s.construct(cls, "layer", [s.vec("names", []) if x == "names" else x for x in ctor])
        def call(name, n, **kw):
            s.run(s.method(cls, name, n), this=layer, cls=cls, **kw)
        call("Connect", 3, args={0: s.vec("inputs", ins), 1: s.vec("outputs", []), 2: sym("status")}, keep=truthy)
        for x in sc:
            if x == "new":
                s.run(s.method(T_, "Clear", 2), this=addr(fld(el(ins[0]), "data")), args={0: V, 1: num(-1)}, cls=T_)
            elif x in ("on", "off"):
                call("SetDisabled", 1, args={0: T if x == "off" else F})
            else:
                call(x, 0)
        call("UpdateAll", 0)
        R.uses(*s.fns)
        R.uses(*sorted(s.E.inlined))
        p = [s.query(T_, "data_ptr_const", addr(fld(el(i), "data")), nparams=0) for i in ins]
        return s, s.log, regs, p

    def decide(s, eff, regs, p, pts, oracle):
        def fn(P, c):
            keys = [cptr(q)(c) for q in p]
            h = c.init
            style = c.seed % 4

            def init(loc):
                if loc[0] == "fv" and loc[-1] == "#size":
                    return 0      # number of class names
                if loc[0] == "el" and loc[1] == keys[2][0]:
                    z = h(("w",) + tuple(loc))
                    return 0.0 if style == 0 and z < 0.3 else abs(z) + (0.6 if style != 3 else 0)
                if loc[0] == "el" and loc[1] == keys[0][0] and style % 2:
                    # prediction close to the label
                    return 0.7 * h(("el", keys[1][0], keys[1][1] + loc[2] - keys[0][1])) + 0.3 * h(loc)
                return None
            c.initmem = None
            def mem(loc):
                c.initmem = None
                v = init(loc)
                c.initmem = mem
                return v
            c.initmem = mem
            got, bad = {}, []

            def on(e, c):
                if e.kind != "call" or e.d["q"] != "Conv::StatAggregator::Update":
                    return
                i = asint(cnum(e.d["args"][0])(c)) - 101
                if not 0 <= i < len(regs):
                    bad.append({"what": "updates a statistic it did not register", "at": e.where()})
                    return
                if regs[i] in got:
                    bad.append({"what": "updates %s twice" % regs[i], "at": e.where()})
                v = cnum(e.d["args"][1])(c)
                if isinstance(v, Poison):
                    raise Unknown("value of " + regs[i])
                got[regs[i]] = v
            P.run(c, on)
            if bad:
                return bad[0]
            el_ = lambda k: (lambda off: c.init(("el", keys[k][0], keys[k][1] + off)))
            need = oracle(c, el_(0), el_(1), el_(2))
            if need is None:
                return None
            for nme, v in need.items():
                g = got.get(nme)
                if g is not None and g != g:
                    return {"what": nme, "implementation": "not a number", "required": repr(v)}
                if (g is None) != (v is None) or (v is not None and abs(g - v) > 1e-6 * (1 + abs(v))):
                    return {"what": nme, "implementation": repr(g), "required": repr(v)}
            return None
        return at_points(eff, pts, fn, ("store", "call"), s.assumptions(), seed=R.seed, want=want, tries=want * 20)

    def confusion(sc):
        def g():
            s, eff, regs, p = scenario("Conv::ConfusionMatrixLayer", ["names", CL], ([N, W, H, M], [N, W, H, M], [N, W3, H3, ONE]), sc)

            def pts(rng):
                a = {x: rng.randint(1, 3) for x in (N, W, H, M)}
                a[W3], a[H3] = a[W] + rng.choice((0, 0, 1)), a[H] + rng.choice((0, 0, 1))
                a[CL] = a[M] + rng.choice((0, 0, 1))
                a[V] = rng.choice((0.0, 1.0))
                return a

            def oracle(c, x, y, w):
                a = c.assign
                g3 = lambda f, m_, w_, h_: (lambda n, m, yy, xx: f(((n * m_ + m) * h_ + yy) * w_ + xx))
                first = g3(x, a[M], a[W], a[H])
                preds = [first if p else (lambda *k: a[V]) for p in passes(sc)]
                return confusion_values(preds, g3(y, a[M], a[W], a[H]), g3(w, 1, a[W3], a[H3]), (a[N], a[W], a[H], a[M], a[CL]))
            return decide(s, eff, regs, p, pts, oracle)
        return g

    def binary(sc):
        def g():
            s, eff, regs, p = scenario("Conv::BinaryStatLayer", [TH, LO, HI], ([N, W, H, M], [N, W, H, M], [N, W, H, M]), sc)

            def pts(rng):
                a = {x: rng.randint(1, 3) for x in (N, W, H, M)}
                a[V] = rng.choice((-1.2, 0.1, 1.3))
                a[TH] = rng.choice((1, 2, 3, 4))
                a[LO] = rng.choice((-1.0, -1.5, -0.5, 0.25))
                a[HI] = a[LO] + rng.choice((1.0, 2.0))
                return a

            def oracle(c, x, y, w):
                a = c.assign
                preds = [x if p else (lambda i: a[V]) for p in passes(sc)]
                return binary_values(preds, y, w, a[N] * a[W] * a[H] * a[M], a[LO], a[HI], a[TH])
            return decide(s, eff, regs, p, pts, oracle)
        return g

    def where(cls):
        f = prog.byq["Conv::%s::UpdateAll" % cls][0]
        return "%s:%d" % (f["file"], f["line"])
    for n, sc in SCENARIOS.items():
        R.guard("confusion matrix, " + n, where("ConfusionMatrixLayer"),
                "recognition rates and intersection over union equal their definition over the collected passes", confusion(sc))
        R.guard("binary statistics, " + n, where("BinaryStatLayer"),
                "rates, precision, recall and F1 equal their definition at the threshold of best F1 over the collected passes", binary(sc))
