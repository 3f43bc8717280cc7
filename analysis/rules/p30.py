"""The completeness check accepts exactly the networks that can be initialised."""
import random
from terms import *
from program import program, AnalysisError
from compare import Verdict, Unknown
from graphs import Graph, Node, GR, LOSS, TRAIN, STAT, PLAIN, random_shape

MIN = 4


def bases():
    yield "line", [Node("in", is_input=True), Node("a", [("in", 0)]), Node("out", [("a", 0)], is_output=True)]
    yield "labels", [Node("in", is_input=True, nout=3, cls=TRAIN), Node("a", [("in", 0)]), Node("out", [("a", 0), ("in", 2)], is_output=True, cls=LOSS)]
    yield "branches", [Node("in", is_input=True), Node("a", [("in", 0)]), Node("b", [("a", 0)]), Node("c", [("a", 0)], nout=2), Node("d", [("b", 0), ("c", 1)], is_output=True)]
    yield "two inputs", [Node("in", is_input=True), Node("in2", is_input=True), Node("a", [("in", 0), ("in2", 0)]), Node("out", [("a", 0)], is_output=True), Node("out2", [("a", 0)], is_output=True)]


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["networks of at most nine nodes: four fixed shapes, %d generated ones, and every single defect planted at every place in them" % (16 if R.thorough else 6)]
    f = prog.byq[GR + "::IsComplete"][0]
    where = "%s:%d" % (f["file"], f["line"])
    SH = list(bases())
    rng = random.Random(R.seed + 30)
    for k in range(16 if R.thorough else 6):
        sh = random_shape(rng, rng.randint(3, 8))
        SH.append(("generated %d" % k, sh))

    def ask(G):
        def describe(E, fn, obj, args, n, st):
            if obj is NULL:
                E.emit("nullderef", st, n)
            return mk("str", "a layer")
        G.s.E.hooks["Conv::Layer::GetLayerDescription"] = describe
        G.call("IsComplete")
        # a name written through a string stream is not empty
        r = subst(G.ret, {x: ONE for x in walk(G.ret) if x.op == "slen" or x.op == "call" and "length" in str(x.a[0])})
        if r is not T and r is not F:
            raise Unknown("the answer is not determined by the network: %s" % show(r)[:120])
        R.uses(*sorted(G.s.E.inlined))
        return r is T

    def good():
        n = 0
        for name, sh in SH:
            for init in (False, True):
                for k in range(2):
                    order = [x.name for x in sh]
                    if k:
                        random.Random(n).shuffle(order)
                    G = Graph(prog, sh)
                    G.add(order)
                    if not [x for x in sh if x.is_output] or not [x for x in sh if x.is_input]:
                        continue
                    if init and G.call("Initialize") is None:
                        raise Unknown("Initialize refuses the network")
                    if not ask(G):
                        return Verdict("different", "a complete network is called incomplete", {"network": name, "nodes": [(x.name, x.inputs) for x in sh], "initialised": init})
                    n += 1
        return Verdict("equal", "partial evaluation", points=n)
    R.guard("complete networks", where, "a network without defects is complete, before and after initialisation", good)

    def broken(kind, alter):
        """alter(G, sh, i) -> True if node i can have that defect"""
        def g():
            n = 0
            for name, sh in SH:
                if not [x for x in sh if x.is_output] or not [x for x in sh if x.is_input]:
                    continue
                for i in range(len(sh)):
                    for j in range(max(1, len(sh[i].inputs))):
                        G = Graph(prog, sh)
                        G.add()
                        if not alter(G, sh, i, j):
                            continue
                        try:
                            ok = ask(G)
                        except AnalysisError as e:
                            if "never returns" in str(e):
                                ok = False
                            else:
                                raise
                        bad = [e for e in G.s.log if e.kind == "nullderef"]
                        if ok:
                            return Verdict("different", "a network with %s is called complete" % kind, {"network": name, "nodes": [(x.name, x.inputs, x.is_input, x.is_output) for x in sh], "node": sh[i].name, "connection": j})
                        if bad:
                            return Verdict("different", "%s uses a null pointer for a network with %s" % (bad[0].where(), kind), {"at": bad[0].where()})
                        n += 1
            if not n:
                raise Unknown("no network to plant the defect in")
            return Verdict("equal", "partial evaluation", points=n)
        R.guard(kind, where, "a network with %s is not complete" % kind, g)

    def conn(G, sh, i, j):
        return el(mk("vdata", fld(el(G.node[sh[i].name]), "input_connections")), num(j))

    def null_layer(G, sh, i, j):
        G.s.st.env[fld(el(G.node[sh[i].name]), "layer")] = NULL
        return j == 0

    def null_conn(G, sh, i, j):
        if j >= len(sh[i].inputs):
            return False
        G.s.st.env[fld(conn(G, sh, i, j), "node")] = NULL
        return True

    def foreign(G, sh, i, j):
        if j >= len(sh[i].inputs):
            return False
        # an identical node that was never added
        src = sh[i].inputs[j][0]
        from graphs import ND
        other = G.s.construct(ND, "foreign", [G.layer[src]], ptypes=["Layer *"])
        G.s.st.env[fld(conn(G, sh, i, j), "node")] = other
        return True

    def buffer(G, sh, i, j):
        if j >= len(sh[i].inputs):
            return False
        src = [x for x in sh if x.name == sh[i].inputs[j][0]][0]
        G.s.st.env[fld(conn(G, sh, i, j), "buffer")] = num(src.nout + (i % 2))
        return True

    def both(G, sh, i, j):
        if j or not (sh[i].is_input or sh[i].is_output):
            return False
        for x in ("is_input", "is_output"):
            G.s.st.env[fld(el(G.node[sh[i].name]), x)] = T
        return True

    def nameless(G, sh, i, j):
        G.s.st.env[fld(el(G.node[sh[i].name]), "unique_name")] = mk("str", "")
        return j == 0

    def none(flag):
        def h(G, sh, i, j):
            if i or j:
                return False
            for x in sh:
                G.s.st.env[fld(el(G.node[x.name]), flag)] = F
            return True
        return h
    broken("a node without a layer", null_layer)
    broken("a connection to nothing", null_conn)
    broken("a connection to a node that was not added", foreign)
    broken("a connection to a buffer that does not exist", buffer)
    broken("a node that is input and output", both)
    broken("a node without a name", nameless)
    broken("no input", none("is_input"))
    broken("no output", none("is_output"))
