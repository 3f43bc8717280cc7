"""Saving, loading and optimising go through the parameters in one order."""
import random
from terms import *
from program import program
from compare import Verdict, Unknown
from graphs import Graph, Node, GR, C_, T_, LOSS, TRAIN, STAT
from training import Training, net, TR

MIN = 5


class Skipped(Exception):
    pass


def caught(thunk):
    def g():
        try:
            return thunk()
        except Skipped as e:
            return Verdict("different", e.args[0], {"at": e.args[1], "condition": e.args[2]})
    return g


def shapes():
    n = [Node("in", is_input=True, nout=2, cls=TRAIN), Node("a", [("in", 0)]), Node("b", [("a", 0)]), Node("c", [("b", 0)]),
         Node("loss", [("c", 0), ("in", 1)], cls=LOSS, is_output=True)]
    yield n, {"a": ["wa", "ba"], "b": [], "c": ["wc"]}, None
    yield n, {"a": ["wa"], "b": ["wb", "bb", "gb"], "c": ["wc", "bc"]}, ["in", "c", "a", "loss", "b"]
    yield n, {"loss": ["wl"], "in": ["wi"]}, ["loss", "c", "b", "a", "in"]
    yield n, {}, None
    yield n[:1], {"in": ["wi", "bi"]}, None
    yield [], {}, None


def setup(prog, sh, params, order, extra):
    G = Graph(prog, sh, extra=extra)
    s = G.s
    G.add(order)
    t = {}
    for n in sh:
        lv = fld(el(G.layer[n.name]), "parameters_")
        ps = params.get(n.name, ())
        for i, p in enumerate(ps):
            t[p] = s.construct(C_, p, [sym(p + x) for x in "SWHM"])
            s.st.env[el(mk("vdata", lv), num(i))] = t[p]
        s.st.env[fld(lv, "#size")] = num(len(ps))
    want = [p for x in (order or [n.name for n in sh]) for p in params.get(x, ())]
    layers = [x for x in (order or [n.name for n in sh])]
    return G, t, want, layers


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["networks of at most five nodes with at most three parameters per layer, several insertion orders",
                      "reading or writing one tensor is decided separately (P03)", "a stream that ended after n tensors is no longer good or at its end"]

    def where(n):
        f = prog.byq[GR + "::" + n][0]
        return "%s:%d" % (f["file"], f["line"])

    def hooks(limit=None, why="eof"):
        seen, flag = [], [False]

        def end():
            return limit is not None and sum(1 for x in seen if x[0] == "Deserialize") >= limit

        def io(what):
            def h(E, fn, obj, args, n, st):
                if E.loops:
                    raise Unknown("order of parameters depends on data")
                c = [p for p in st.pc if p is not T]
                if c:
                    a = [y for p in c for y in walk(p) if y.op not in ("sym", "num", "poly", "ge0", "gt0", "eq0", "not", "and", "or", "ind", "tb")]
                    if a:
                        raise Unknown("order of parameters depends on data")
                    raise Skipped("a parameter is passed over depending on its shape", "%s:%s" % (E.frames[-1].fn["q"], n.get("l")), show(c[0]))
                if what == "Deserialize" and end():
                    flag[0] = True
                seen.append((what, obj))
                return ZERO
            return h

        def peek(E, fn, obj, args, n, st):
            if end():
                flag[0] = True
                return num(-1)
            return sym("peeked")

        def over():
            return flag[0] or why == "fail" and end()
        ex = {T_ + "::Serialize": io("Serialize"), T_ + "::Deserialize": io("Deserialize"),
              "std::basic_ios<char>::good": lambda E, fn, obj, args, n, st: F if over() else T,
              "std::basic_ios<char>::eof": lambda E, fn, obj, args, n, st: T if over() and why == "eof" else F,
              "std::basic_ios<char>::fail": lambda E, fn, obj, args, n, st: F,
              "std::basic_ios<char>::bad": lambda E, fn, obj, args, n, st: F,
              "std::basic_ios<char>::operator bool": lambda E, fn, obj, args, n, st: F if over() else T,
              "std::basic_istream<char>::peek": peek}
        return ex, seen

    def data(t, p):
        return addr(fld(el(t[p]), "data"))

    def named(t, obj):
        for p in t:
            if data(t, p) is obj:
                return p
        return "%s, which is no parameter's data" % show(obj)

    def mismatch(got, want, what, desc):
        if got != want:
            return Verdict("different", "%s %s instead of %s" % (what, got, want), dict(desc, found=got, required=want))

    def get():
        n = 0
        for sh, params, order in shapes():
            ex, seen = hooks()
            G, t, want, _ = setup(prog, sh, params, order, ex)
            s = G.s
            v = mk("gvar", "parameters")
            s.st.env[fld(v, "#size")] = ZERO
            G.call("GetParameters", v)
            got = [next((p for p in t if t[p] is x), show(x)) for x in s.vec_items(v)]
            b = mismatch(got, want, "the parameters are listed as", {"added": order or [x.name for x in sh]})
            if b:
                return b
            n += 1
            R.uses(*sorted(s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)
    R.guard("parameter list", where("GetParameters"), "every parameter is listed once, by layer, in the layer's order", caught(get))

    def save():
        n = 0
        for sh, params, order in shapes():
            ex, seen = hooks()
            G, t, want, _ = setup(prog, sh, params, order, ex)
            G.call("SerializeParameters", mk("gvar", "out"))
            got = [named(t, o) for w, o in seen]
            b = mismatch(got, want, "the parameters are saved as", {"added": order or [x.name for x in sh]})
            if b:
                return b
            n += 1
            R.uses(*sorted(G.s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)
    R.guard("saving", where("SerializeParameters"), "every parameter is saved once, in the order of the parameter list", caught(save))

    def load(limits, part, why="eof"):
        def g():
            n = 0
            for sh, params, order in shapes():
                for last in (range(0, len(sh) + 3) if part else [0]):
                    total = sum(len(v) for v in params.values())
                    for lim in (range(0, total + 1) if limits else [None]):
                        ex, seen = hooks(lim, why)
                        G, t, want, layers = setup(prog, sh, params, order, ex)
                        want = [p for i, l in enumerate(layers) for p in params.get(l, ()) if last == 0 or i <= last]
                        if lim is not None:
                            want = want[:lim]
                        G.call("DeserializeParameters", mk("gvar", "in"), num(last))
                        got = [named(t, o) for w, o in seen]
                        b = mismatch(got, want, "the parameters are loaded as", {"added": order or [x.name for x in sh], "last layer": last, "tensors in the file": lim})
                        if b:
                            return b
                        n += 1
                        R.uses(*sorted(G.s.E.inlined))
            R.count("loads", n)
            return Verdict("equal", "partial evaluation", points=n)
        return g
    R.guard("loading", where("DeserializeParameters"), "parameters are loaded in the order they were saved", caught(load(False, False)))
    R.guard("partial loading", where("DeserializeParameters"), "a partial load ends behind the parameters of the requested layer", caught(load(False, True)))
    R.guard("loading from a short file", where("DeserializeParameters"), "a file that ends early changes exactly the parameters it holds", caught(load(True, False)))
    R.guard("loading from a file that fails", where("DeserializeParameters"), "a stream that fails changes exactly the parameters read before", caught(load(True, False, "fail")))

    def roots(e):
        out = set()
        for v in list(e.d.values()) + list(e.pc):
            for y in walk(v) if isinstance(v, Term) else ():
                if y.op == "alloc":
                    out.add(y)
        return out

    def trainer():
        n = 0
        for method in (0, 1):
            for sh, params, order in list(shapes())[:1 if method else 2]:
                t = Training(prog, net(), dict(iterations=num(1 + method), sbatchsize=ONE, optimization_method=num(method), epoch_training_ratio=ONE, testing_ratio=ONE),
                             params={k: v[:2] for k, v in params.items()}, order=[x if x != "loss" else "loss0" for x in order] + ["stat0"] if order else None)
                t.call("Epoch")
                own = {}
                for p in t.tensor:
                    for w in ("data", "delta"):
                        own[t.data(p, w)] = p
                state = {}
                for v in ("last_deltas_", "last_gradients_", "accumulated_gradients_"):
                    lv = fld(el(t.t), v)
                    for i, x in enumerate(t.s.vec_items(lv)):
                        state.setdefault(t.s.get(x, "data_ptr_"), (v, i))
                names = [p for l in (order or ["in", "a", "b", "c", "loss"]) for p in params.get(l, ())[:2]]
                for e in t.effects():
                    if e.kind != "store" or not e.loops:
                        continue
                    r = roots(e)
                    ps = {own[x] for x in r if x in own} | {names[state[x][1]] for x in r if x in state}
                    if len(ps) > 1:
                        return Verdict("different", "%s combines the parameters %s" % (e.where(), sorted(ps)), {"at": e.where(), "value": show(e.d["val"])[:300]})
                for x, (v, i) in state.items():
                    if i >= len(names):
                        return Verdict("different", "%s has an entry for no parameter" % v, {})
                n += 1
                R.uses(*sorted(t.s.E.inlined))
        return Verdict("equal", "partial evaluation", points=n)
    f = prog.byq[TR + "::ApplyGradients"][0]
    R.guard("optimiser state", "%s:%d" % (f["file"], f["line"]), "the optimiser's state of a parameter is used for that parameter only", trainer)
