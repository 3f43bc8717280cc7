"""One epoch of training changes every parameter exactly as the optimisation rule prescribes."""
import random
from terms import *
from program import program, AnalysisError
from compare import Verdict, Unknown, cnum, cloc, at_points, same
from training import Training, net, TR, PARAMS

MIN = 8
FIELDS = ("learning_rate", "l1_weight", "l2_weight", "exponent", "gamma", "momentum", "mu")
GD, QP = 0, 1


def sgn(x):
    return (x > 0) - (x < 0)


class Rule:
    """the optimisation rule, on plain numbers"""

    def __init__(self, S, method, count, sb, lp, layer_lr):
        self.S, self.method, self.count, self.sb, self.lp, self.layer_lr = S, method, count, sb, lp, layer_lr
        self.last, self.slope, self.first, self.margin, self.zero = {}, {}, True, 1.0, False

    def reset(self):
        self.last, self.slope, self.first = {}, {}, True

    def near(self, *ds):
        # decisions on values that are equal in exact arithmetic are not compared
        for d in ds:
            if d == 0:
                self.zero = self.zero or not self.first
            else:
                self.margin = min(self.margin, abs(d))

    def step(self, w, grads, lr):
        S = self.S
        for k in w:
            g = sum(G[k] for G in grads)
            x = w[k]
            self.near(x)
            llr = self.layer_lr[k[0]]
            delta = llr * (g / (self.count * self.sb) * self.lp) + llr * (S["l2_weight"] * x + S["l1_weight"] * sgn(x))
            last = self.last.get(k, 0.0)
            if self.method == GD:
                step = lr * delta + S["momentum"] * last
                w[k] = x - step
                self.last[k] = step
                continue
            slope = self.slope.get(k, 0.0)
            if self.first:
                step = -0.1 * delta
            elif abs(delta) <= 1e-15:
                step = -delta * lr
            else:
                self.near(abs(delta) - abs(S["mu"] * (slope - delta)), slope - delta, slope, last, delta)
                if abs(delta) < abs(S["mu"] * (slope - delta)) and sgn(last) != sgn(slope - delta):
                    step = last * delta / (slope - delta)
                else:
                    step = S["mu"] * last
                if sgn(delta) == sgn(slope):
                    step -= lr * delta
            w[k] = x + step
            self.last[k], self.slope[k] = step, delta
        self.first = False


def scenarios(thorough):
    small = {"a": ["wa"], "b": [], "c": []}
    two = {"a": ["wa"], "b": [], "c": ["wc"]}
    out = [
        ("gradient descent, two iterations of two batches", GD, 2, 2, ONE, ["E"], PARAMS, False),
        ("gradient descent, one batch per iteration", GD, 3, 1, ONE, ["E"], PARAMS, True),
        ("gradient descent, two epochs", GD, 1, 2, ONE, ["E", "E"], PARAMS, False),
        ("gradient descent, epochs counted from another", GD, 2, 1, ONE, [("SetEpoch", 4), "E"], PARAMS, False),
        ("gradient descent, momentum after a reset", GD, 1, 1, ONE, ["E", "Reset", "E"], two, False),
        ("gradient descent, part of the training set", GD, 0, 1, num("1/2"), ["E"], two, False),
        ("gradient descent, part of the iterations", GD, 4, 1, num("1/2"), ["E"], two, True),
        ("gradient descent, several losses", GD, 1, 2, ONE, ["E"], PARAMS, False),
        ("gradient descent through Train", GD, 1, 1, ONE, [("Train", 2)], two, False),
        ("QuickProp, first step", QP, 1, 2, ONE, ["E"], two, False),
        ("QuickProp, three steps", QP, 3, 1, ONE, ["E"], small, False),
        ("QuickProp, several parameters", QP, 2, 1, ONE, ["E"], two, True),
        ("QuickProp, again after a reset", QP, 1, 1, ONE, ["E", "Reset", "E"], small, False),
    ]
    if thorough:
        out += [
            ("gradient descent, three epochs of three iterations", GD, 3, 2, ONE, ["E", "E", "E"], two, False),
            ("gradient descent, the whole training set", GD, 0, 2, ONE, ["E"], two, True),
            ("gradient descent, testing in between", GD, 1, 1, ONE, ["E", "Test", "E"], PARAMS, False),
            ("QuickProp, four steps", QP, 2, 1, ONE, ["E", "E"], small, False),
        ]
    return out


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["arithmetic over the real numbers", "backward passes write arbitrary gradients into the parameters and do nothing else",
                      "bounded scenarios: at most three epochs of seven iterations of two batches on a network of six or seven nodes",
                      "statistics and log output do not influence training"]
    want = 40 if R.thorough else 14
    f = prog.byq[TR + "::ApplyGradients"][0]
    where = "%s:%d" % (f["file"], f["line"])
    NTR = 7

    def check(name, method, its, sb, ratio, script, params, swap):
        sh = net(losses=2 if "losses" in name else 1)
        order = [x.name for x in sh]
        if swap:
            order = [x for x in order if x != "a"]
            order.insert(order.index("c") + 1, "a")
        t = Training(prog, sh, dict(iterations=num(its), sbatchsize=num(sb), optimization_method=num(method), epoch_training_ratio=ratio, testing_ratio=ONE),
                     params=params, ntrain=NTR, order=order)
        s = t.s
        epochs = []          # (first epoch number)
        number = 0
        for c in script:
            c, v = c if isinstance(c, tuple) else (c, None)
            if c == "E":
                t.call("Epoch")
            elif c == "Train":
                t.call("Train", num(v), F)
            elif c == "SetEpoch":
                t.call("SetEpoch", num(v))
            elif c == "Test":
                t.call("Test")
            else:
                t.call(c)
        eff = t.effects()
        R.uses(*sorted(s.E.inlined))
        names = [p for l in order for p in params.get(l, ())]
        layer = {p: l for l, ps in params.items() for p in ps}
        total = its if its else NTR
        n_it = int(total * ratio.a[0])
        atoms = [sym(p + x) for p in names for x in "SWHM"]

        def points(rng):
            asg = {a: rng.choice((1, 1, 2, 3)) for a in atoms}
            for p in names:
                if rng.random() < 0.15:
                    asg[sym(p + rng.choice("SWHM"))] = 0
                else:
                    for x in rng.sample("SWHM", 2):
                        asg[sym(p + x)] = 1
            for k in FIELDS:
                asg[sym(k)] = rng.choice((0.0, 0.25, 0.5, 1.0, 1.5, 1.75)) if k != "learning_rate" else rng.choice((0.1, 0.5, 0.01))
            asg[sym("LP")] = rng.choice((1.0, 0.5, 0.25))
            asg[sym("LW")], asg[sym("LH")] = rng.randint(1, 3), rng.randint(1, 3)
            for n in sh:
                asg[sym("lr_" + n.name)] = rng.choice((1.0, 0.5, 2.0))
            return asg

        def fn(P, c):
            c.style = (None, "ties", None, "negative")[c.seed % 4]
            g = lambda x: c.assign[sym(x)]
            S = {k: g(k) for k in FIELDS}
            cnt = {p: g(p + "S") * g(p + "W") * g(p + "H") * g(p + "M") for p in names}
            loc = {(p, i): cloc(el(t.data(p), num(i)))(c) for p in names for i in range(cnt[p])}
            w = {(layer[p], p, i): c.init(loc[p, i]) for p, i in loc}
            rule = Rule(S, method, g("LW") * g("LH") * t.batch, sb, g("LP"), {l: g("lr_" + l) for l in params})
            k = 0
            epoch = 0
            for a in script:
                a, v = a if isinstance(a, tuple) else (a, 1)
                if a == "Reset":
                    rule.reset()
                elif a == "SetEpoch":
                    epoch = v
                    rule.reset()
                elif a in ("E", "Train"):
                    for _ in range(v):
                        for i in range(n_it):
                            grads = []
                            for _ in range(sb):
                                k += 1
                                grads.append({(layer[p], p, j): c.init(cloc(el(sym("G%d_%s" % (k, p)), num(j)))(c)) for p, j in loc})
                            rule.step(w, grads, S["learning_rate"] * (1 + S["gamma"] * (epoch * n_it + i)) ** -S["exponent"])
                        epoch += 1
            if rule.margin < 1e-9:
                raise Unknown("a decision of the rule is a tie")
            passes = max(t.calls.values()) if t.calls else 0
            if passes != k:
                return {"what": "%d backward passes where the settings ask for %d" % (passes, k)}
            P.run(c)
            for (p, i), l in loc.items():
                x = c.mem.get(l, c.init(l))
                y = w[layer[p], p, i]
                if isinstance(x, float) and x != x:
                    raise Unknown(getattr(x, "why", "undefined value"))
                if rule.zero and not abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)):
                    raise Unknown("a decision of the rule is a tie")
                if not (abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))):
                    return {"what": "parameter %s[%d] becomes %r, required is %r" % (p, i, x, y)}
            e = s.query(TR, "epoch", t.t, nparams=0)
            if cnum(e)(c) != epoch:
                return {"what": "epoch() is %r after epoch %d" % (cnum(e)(c), epoch)}
            return None
        return at_points(eff, points, fn, ("store", "call"), s.assumptions(), seed=R.seed, want=want, tries=want * 12)
    for sc in scenarios(R.thorough):
        R.guard(sc[0], where, "every parameter takes the step of the optimisation rule", lambda sc=sc: check(*sc))
