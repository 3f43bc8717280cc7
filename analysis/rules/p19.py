"""Configuration strings reach exactly the settings they name."""
import random
import re
from terms import *
from program import program, AnalysisError, NeverReturns
from session import Session
from compare import Verdict, Unknown
import texts
import regexlang
from texts import text, lit, dig, dec, objects_differ, render
from rules.p20 import Numeral, folder, Bad, seed_of, rng_functions

MIN = 8
LF = "Conv::LayerFactory"
OLD = sym("old")


def sure(*ts):
    for t in ts:
        if not texts.settled(t):
            raise Unknown("value is not decided: %s" % (t,))


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


class Setting:
    """key=value with the values it stands for"""
    def __init__(self, key, parts, values):
        self.key, self.parts, self.values = key, parts, values

    @property
    def text(self):
        return text(self.key + "=", *self.parts)


def setting(rng, N, key, kind, low=1):
    if rng.random() < 0.25:         # a number that is known
        a = [num(rng.choice((1, 2, 7, 10, 64, 4096))) for _ in range(2 if kind == "size" else 1)]
        return Setting(key, [x for i, v in enumerate(a) for x in (["x"] if i else []) + [str(int(v.a[0]))]], a)
    if kind == "size":
        a, b = N.new(key, low), N.new(key, low)
        return Setting(key, [dig(a), "x", dig(b)], [a, b])
    a = N.new(key, low)
    return Setting(key, [(dig if kind == "count" else dec)(a)], [a])


# ------------------------------------------------------------ parse functions --
def parameters(P, R, seed):
    """Parse*IfPossible on lists of settings"""
    rng = random.Random(seed)
    n = 0
    kinds = {"size": "ParseKernelSizeIfPossible", "count": "ParseCountIfPossible", "real": "ParseDatumParamIfPossible", "name": "ParseStringParamIfPossible"}
    for _ in range(6):
        N = Numeral()
        keys = shuffled(rng, ["size", "stride", "pad", "kernels", "group", "dropout", "llr", "method", "mu", "border"])[:rng.randint(1, 4)]
        have = []
        for k in keys:
            kind = rng.choice(["size", "count", "real", "name"])
            if kind == "name":
                v = rng.choice(["across", "patch", "b", "fcn", "size", "kernels", "mu", "absent"])
                have.append((kind, Setting(k, [v], [lit(v)])))
            else:
                have.append((kind, setting(rng, N, k, kind)))
        head = rng.choice(["", "?convolutional ", "?lrn  ", "?group "])
        line = text(head, *[x for i, (_, y) in enumerate(have) for x in ([" "] if i else []) + [y.text]], rng.choice(["", " "]))
        for kind, x in have + [(k, None) for k in kinds]:
            fn = kinds[kind]
            f = [g for g in P.byq["Conv::" + fn] if g.get("body") is not None][0]
            s = Session(P)
            texts.prepare(s)
            s.E.cmp_fold = folder(N.low)
            outs = [mk("gvar", "out%d" % i) for i in range(2 if kind == "size" else 1)]
            old = lit("previous") if kind == "name" else OLD
            for o in outs:
                s.st.env[o] = old
            key = x.key if x else "absent"
            s.run(f, args=dict([(0, line), (1, lit(key))] + [(2 + i, o) for i, o in enumerate(outs)]))
            R.uses(*s.E.inlined)
            R.uses("Conv::" + fn)
            got = [s.st.env[o] for o in outs]
            want = x.values if x else [old] * len(outs)
            sure(*got)
            if any(g is not w for g, w in zip(got, want)):
                raise Bad("%s(\"%s\", \"%s\") yields %s instead of %s" % (fn, render(line), key, ", ".join(map(str, got)), ", ".join(map(str, want))), fn)
            n += 1
    return n


def lines(P, R, seed):
    """Parse*IfPossible on lines identifier=value"""
    rng = random.Random(seed)
    n = 0
    for _ in range(4):
        N = Numeral()
        for kind, fn, pure in (("count", "ParseUIntIfPossible", "ParseUInt"), ("real", "ParseDatumIfPossible", "ParseDatum"), ("name", "ParseStringIfPossible", "ParseString")):
            ids = shuffled(rng, ["l1", "gamma", "iterations", "momentum", "classes", "mu", "eta"])
            if kind == "name":
                v = rng.choice(["patch", "/a b/c.dat", "x=y"])
                x = Setting(ids[0], [v], [lit(v)])
            else:
                x = setting(rng, N, ids[0], kind)
            for ident in ids[:3]:
                for q in (fn, pure):
                    hit = ident == x.key
                    if q == pure and not hit:
                        continue
                    f = [g for g in P.byq["Conv::" + q] if g.get("body") is not None][0]
                    s = Session(P)
                    texts.prepare(s)
                    s.E.cmp_fold = folder(N.low)
                    out = mk("gvar", "out")
                    old = lit("previous") if kind == "name" else OLD
                    s.st.env[out] = old
                    r = s.run(f, args={0: x.text, 1: lit(ident), 2: out} if q == fn else {0: x.text, 1: lit(ident)})
                    R.uses(*s.E.inlined)
                    R.uses("Conv::" + q)
                    got = s.st.env[out] if q == fn else r.ret
                    sure(got)
                    if got is not (x.values[0] if hit else old):
                        raise Bad("%s(\"%s\", \"%s\") yields %s instead of %s" % (q, render(x.text), ident, got, x.values[0] if hit else "no change"), q)
                    n += 1
    return n


# -------------------------------------------------------------- descriptors --
VALID = "^[a-z]+(\\(([a-z]+=[a-zA-Z0-9.]+( [a-z]+=[a-zA-Z0-9.]+)*)?\\))?$"


class Opaque(Exception):
    pass


def language(P, R):
    """the set of accepted descriptors, from the pattern the code matches with"""
    f = [g for g in P.byq[LF + "::IsValidDescriptor"] if g.get("body") is not None][0]
    s = Session(P)
    texts.prepare(s)
    d = mk("word", sym("descriptor"))
    old = s.E.hooks["std::regex_match"]
    pats = []

    def match(E, fn, obj, a, n, st):
        t = texts.as_text(E, E.arg(a[0], st), st)
        if t is d or t is text(d):
            x = a[1]
            v = E.arg(x, st)
            while v.op == "val":
                v = E.load(v.a[0], st)
            for y in v.a:
                if isinstance(y, Term) and y.op in ("str", "txt", "cstr"):
                    p = text(*texts.pieces(y))
                    if p.op == "str":
                        pats.append(p.a[0])
                        flags = [z for z in v.a if isinstance(z, Term) and "extended" in str(z)]
                        return mk("tb", mk("accepts", lit(p.a[0])))
            raise AnalysisError("pattern is not known")
        return old(E, fn, obj, a, n, st)
    s.E.hooks["std::regex_match"] = match
    r = s.run(f, args={0: d}).ret
    if not pats or to_bool(r) is not mk("tb", mk("accepts", lit(pats[0]))):
        raise AnalysisError("acceptance is not a single pattern match: %s" % (r,))
    w = regexlang.difference(pats[0], VALID)
    R.uses(LF + "::IsValidDescriptor")
    if w is not None:
        return Verdict("different", "accepted descriptors differ", {"what": "\"%s\" is %s" % (w[1], "accepted" if w[0] else "refused"), "where": "pattern %s" % pats[0]})
    return Verdict("equal", "the accepted language is the documented one")


SAMPLES = ["", "tanh", "tanh()", "(", ")", "tanh(", "tanh)", "tanh(a)", "tanh(a=)", "tanh(=1)", "tanh(a=1,b=2)", "tanh(a=1 b)", "tanh(a=1  b=2)", "tanh( a=1)",
           "tanh(a=1 )", "Tanh", "tanh2", "tanh(A=1)", "tanh(a=1)x", " tanh", "tanh ", "tanh(a=-1)", "tanh(a=1;b=2)", "tanh(a==1)", "tanh(a1=1)", "tanh(a=1 b=2 c=3.5x)",
           "a=b", "tanh(a=1)(b=1)", "tanh(())", "tanh(a=x)", "tanh(a=.)", "tanh\n", "tanh(a=1\nb=2)"]


def accept_samples(P, R):
    f = [g for g in P.byq[LF + "::IsValidDescriptor"] if g.get("body") is not None][0]
    for d in SAMPLES:
        s = Session(P)
        texts.prepare(s)
        r = to_bool(s.run(f, args={0: lit(d)}).ret)
        want = re.fullmatch(VALID.strip("^$"), d) is not None
        if r is not T and r is not F:
            raise Unknown("acceptance of %r is not decided: %s" % (d, r))
        if r is not (T if want else F):
            raise Bad("IsValidDescriptor(%r) is %s" % (d, r), d)
    R.uses(LF + "::IsValidDescriptor")
    return len(SAMPLES)


def some_settings(rng, N, k):
    keys = shuffled(rng, ["size", "stride", "kernels", "dropout", "llr", "mu", "weight", "pad"])[:k]
    return [setting(rng, N, x, rng.choice(["size", "count", "real"])) for x in keys]


def descriptor(kind, sets, parens=True):
    if not sets and not parens:
        return text(kind)
    return text(kind, "(", *[x for i, y in enumerate(sets) for x in ([" "] if i else []) + [y.text]], ")")


def parts(P, R, seed):
    rng = random.Random(seed)
    n = 0
    for k in (0, 0, 1, 2, 3):
        N = Numeral()
        sets = some_settings(rng, N, k)
        kind = rng.choice(["convolution", "tanh", "a", "hmax"])
        d = descriptor(kind, sets, parens=rng.random() < 0.5)
        conf = text(*[x for i, y in enumerate(sets) for x in ([" "] if i else []) + [y.text]])
        for fn, want in (("ExtractLayerType", lit(kind)), ("ExtractConfiguration", conf)):
            f = [g for g in P.byq[LF + "::" + fn] if g.get("body") is not None][0]
            s = Session(P)
            texts.prepare(s)
            s.E.cmp_fold = folder(N.low)
            got = s.run(f, args={0: d}).ret
            R.uses(LF + "::" + fn)
            sure(got)
            if not texts.known(got) or texts.text(*texts.pieces(got)) is not want:
                raise Bad("%s(\"%s\") yields \"%s\" instead of \"%s\"" % (fn, render(d), render(got) if texts.known(got) else got, render(want)), fn)
            n += 1
    return n


def seeds(P, R, seed):
    rng = random.Random(seed)
    n = 0
    f = [g for g in P.byq[LF + "::InjectSeed"] if g.get("body") is not None][0]
    for k in (0, 0, 1, 2, 3, "invalid"):
        for has in (False, True):
            N = Numeral()
            new = N.new("newseed", 0)
            if k == "invalid":
                d = want = lit("tanh(seed=3,a=1)" if has else "tanh(a)")
            else:
                sets = some_settings(rng, N, k)
                kind = rng.choice(["convolution", "tanh"])
                sd = Setting("seed", [dig(new)], [new])
                if has:
                    at = rng.randint(0, len(sets))
                    d = descriptor(kind, sets[:at] + [setting(rng, N, "seed", "count", 0)] + sets[at:])
                    want = descriptor(kind, sets[:at] + [sd] + sets[at:])
                else:
                    d = descriptor(kind, sets, parens=rng.random() < 0.5)
                    want = descriptor(kind, sets + [sd])
            s = Session(P)
            texts.prepare(s)
            s.E.cmp_fold = folder(N.low)
            got = s.run(f, args={0: d, 1: new}).ret
            R.uses(*s.E.inlined)
            R.uses(LF + "::InjectSeed")
            sure(got)
            if not texts.known(got) or text(*texts.pieces(got)) is not want:
                raise Bad("InjectSeed(\"%s\") yields \"%s\" instead of \"%s\"" % (render(d), render(got) if texts.known(got) else got, render(want)), "InjectSeed")
            n += 1
    return n


# ------------------------------------------------------------- construction --
def reference(kind, v):
    """class, constructor arguments, parameter types, local learning rate of a layer with settings v"""
    g = lambda k, *d: v.get(k, list(d))
    one = lambda k, d: v[k][0] if k in v else d
    if kind == "convolution":
        return ("ConvolutionLayer", g("size", ZERO, ZERO) + [one("kernels", ZERO)] + g("stride", ONE, ONE) + g("pad", ZERO, ZERO) + [one("group", ONE), one("seed", ZERO), one("dropout", ZERO)], None, one("llr", ONE))
    if kind == "maxpooling":
        return "MaxPoolingLayer", g("size", ONE, ONE), None, None
    if kind == "amaxpooling":
        z = g("size", ONE, ONE)
        return "AdvancedMaxPoolingLayer", z + v.get("stride", z), None, None
    if kind in ("tanh", "sigm", "relu"):
        return {"tanh": "TanhLayer", "sigm": "SigmoidLayer", "relu": "ReLULayer"}[kind], [], None, None
    if kind == "gradientaccumulation":
        return "GradientAccumulationLayer", [one("outputs", ZERO)], ["unsigned int"], None
    if kind == "resize":
        return "ResizeLayer", g("border", ZERO, ZERO), ["unsigned int", "unsigned int"], None
    if kind == "hmax":
        return "HMaxActivationFunction", [one("mu", ONE), one("weight", ZERO)], ["float", "float"], None
    return None


KEYS = {"convolution": [("size", "size"), ("kernels", "count"), ("stride", "size"), ("pad", "size"), ("group", "count"), ("seed", "count"), ("dropout", "real"), ("llr", "real")],
        "maxpooling": [("size", "size")], "amaxpooling": [("size", "size"), ("stride", "size")], "tanh": [], "sigm": [], "relu": [],
        "gradientaccumulation": [("outputs", "count")], "resize": [("border", "size")], "hmax": [("mu", "real"), ("weight", "real")]}
REQUIRED = {"convolution": 2}


def construct(P, R, kind, seed, generator=False):
    """the layer a descriptor yields against one constructed directly; its random generator only on request"""
    rng = random.Random("%s %s" % (kind, seed))
    keys = KEYS[kind]
    req = REQUIRED.get(kind, 0)
    N = Numeral()
    sets = []
    for i, (k, t) in enumerate(keys):
        if i < req or (seed % 3 and rng.random() < 0.7):
            x = setting(rng, N, k, t, 1)
            sets.append(x)
    v = {x.key: x.values for x in sets}
    if kind == "convolution" and "group" in v:          # groups divide the kernels
        m = mul(v["group"][0], v["kernels"][0])
        sets = [Setting("kernels", [dig(m)], [m]) if x.key == "kernels" else x for x in sets]
        v["kernels"] = [m]
    sets = shuffled(rng, sets)
    d = descriptor(kind, sets, parens=rng.random() < 0.5)
    conf = text(*[x for i, y in enumerate(sets) for x in ([" "] if i else []) + [y.text]])
    s = Session(P, depth=40)
    texts.prepare(s)
    s.E.cmp_fold = folder(N.low)
    for x in "ab":
        s.st.env[mk("gvar", "Conv::HMaxActivationFunction::stat_id_" + x)] = ZERO
    f = [g for g in P.byq[LF + "::ConstructLayer"] if g.get("body") is not None][0]
    p = s.run(f, args={0: d}).ret
    R.uses(*s.E.inlined)
    R.uses(LF + "::ConstructLayer")
    cls, args, ptypes, llr = reference(kind, v)
    cls = "Conv::" + cls
    what = "ConstructLayer(\"%s\")" % render(d)
    if p.op not in ("alloc", "null"):
        raise Unknown("%s yields %s" % (what, p))
    got = s.E.dyn.get(p) or (p.a[1] if p.op == "alloc" else None)
    if got != cls:
        raise Bad("a %s is constructed" % (got or p), what)
    s2 = s.fork()
    ref = s2.construct(cls, "reference", args, ptypes=ptypes)
    if llr is not None:
        s2.run(s2.method(cls, "SetLocalLearningRate"), this=ref, args={0: llr}, cls=cls)
    rng_members = [k for k, x in texts.flatten(s2, ref).items() if x.op == "obj" and "mersenne_twister" in x.a[0]]
    if generator:
        want, got = seed_of(s2, ref), seed_of(s2, p)
        if want is None or (got is None and not any(k in texts.flatten(s2, p) for k in rng_members)):
            raise AnalysisError("the layer's random generator is not known")
        if got is None:
            return "none"
        sure(got)
        if got is not want:
            raise Bad("the random generator is seeded with %s instead of %s" % (got, want), what)
        return 1
    diff = objects_differ(s2, p, s2, ref, ignore=CONFIG(P) + rng_members)
    if diff:
        sure(*[x for x in diff[1:] if x is not None])
        raise Bad("%s is %s, the description asks for %s" % diff, what)
    c = s.query(cls, "GetLayerConfiguration", p)
    if not texts.known(c) or text(*texts.pieces(c)) is not conf:
        raise Bad("GetLayerConfiguration() yields %s" % (render(c) if texts.known(c) else c,), what)
    return 1


def CONFIG(P):
    """the member GetLayerConfiguration reads"""
    out = []
    for f in P.byq.get("Conv::Layer::GetLayerConfiguration", []):
        st = [f.get("body")]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("k") in ("member", "mem") and x.get("name"):
                    out.append(x["name"])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    return out or ["configuration_"]


def nothing(P, R):
    f = [g for g in P.byq[LF + "::ConstructLayer"] if g.get("body") is not None][0]
    n = 0
    for d in ("", "nosuchlayer", "convolutio(size=3x3)", "convolutions(size=3x3)", "tanh(", "tanh()()", "tanh(a)", "maxpooling(size=3x3,stride=2x2)", "?tanh", "tanh ", "Tanh", "resize(border=2x2", "hmax mu=0.1"):
        s = Session(P, depth=40)
        texts.prepare(s)
        p = s.run(f, args={0: lit(d)}).ret
        n += 1
        if p.op not in ("alloc", "null"):
            raise Unknown("ConstructLayer(%r) yields %s" % (d, p))
        if p is not NULL:
            raise Bad("ConstructLayer(\"%s\") yields a layer" % d, d)
    return n


def run(R):
    P = program("ref")
    R.configs.add("ref")
    R.assumptions += ["numerals are non-negative decimal numbers; in layer descriptors they are at least one and groups divide the number of kernels",
                      "bounded lists of settings in generated orders; every number in them is arbitrary"]
    loc = lambda q: "%s:%d" % [(f["file"], f["line"]) for f in P.byq[q] if f.get("body") is not None][0]

    def group(g, reps):
        def h():
            n = 0
            try:
                for k in range(reps):
                    n += g(1000 * R.seed + k)
            except Bad as b:
                return Verdict("different", "differs", {"what": b.msg, "where": b.what})
            except NeverReturns as e:
                return Verdict("different", "ends in an exception", {"what": str(e)})
            return Verdict("equal", "%d comparisons" % n, points=n)
        return h
    k = 150 if R.thorough else 20
    R.guard("settings in a list", loc("Conv::ParseCountIfPossible"), "every setting of a list is read exactly, absent ones leave the value alone", group(lambda s: parameters(P, R, s), k))
    R.guard("settings in lines", loc("Conv::ParseUIntIfPossible"), "a line identifier=value sets its value, other lines leave it alone", group(lambda s: lines(P, R, s), k))
    R.guard("accepted descriptors", loc(LF + "::IsValidDescriptor"), "the accepted descriptors are exactly type, type() and type(key=value key=value ...)", lambda: language(P, R))
    R.guard("descriptor samples", loc(LF + "::IsValidDescriptor"), "near misses of valid descriptors are refused", group(lambda s: accept_samples(P, R), 1))
    R.guard("descriptor parts", loc(LF + "::ExtractLayerType"), "layer type and configuration are the parts of the descriptor", group(lambda s: parts(P, R, s), k))
    R.guard("seed injection", loc(LF + "::InjectSeed"), "the seed is replaced or added and everything else stays; other texts are returned unchanged", group(lambda s: seeds(P, R, s), k))
    for kind in KEYS:
        R.guard("layer " + kind, loc(LF + "::ConstructLayer"), "the layer equals one constructed directly with the given settings, and remembers its configuration",
                group(lambda s, kind=kind: construct(P, R, kind, s), (1 if not KEYS[kind] else 3 * k if kind == "convolution" else k) + 1))

    def generator():
        where = loc(LF + "::ConstructLayer")
        rule = "the random generator of a described convolution is seeded with its seed"
        r = [0]
        try:
            for j in range(k + 2):
                r.append(construct(P, R, "convolution", 1000 * R.seed + j, True))
        except Bad as b:
            return Verdict("different", "differs", {"what": b.msg, "where": b.what})
        if "none" in r:
            R.bad("seed of a described convolution has no effect", where, rule, "the generator keeps its default seed", {"what": "convolution(... seed=N)"})
            return None
        return Verdict("equal", "%d descriptions" % (len(r) - 1), points=len(r) - 1)
    R.guard("seed of a described convolution", loc(LF + "::ConstructLayer"), "the random generator of a described convolution is seeded with its seed", generator)
    R.guard("refused descriptors", loc(LF + "::ConstructLayer"), "unknown types and malformed descriptors yield no layer", group(lambda s: nothing(P, R), 1))
