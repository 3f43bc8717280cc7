"""Graph traversal: initialisation, forward and backward order, gradient fan-in."""
import random
import texts
from terms import *
from program import program
from compare import Unknown, Verdict
from graphs import Graph, Node, random_shape, GR, ND, C_, T_, GA, PLAIN, LOSS, TRAIN, STAT

MIN = 10


class Bad(Exception):
    pass


def need(c, what, **kw):
    if not c:
        raise Bad(dict(what=what, **kw))


def shapes(rng, count):
    fixed = [
        [Node("in", is_input=True, nout=2, cls=TRAIN), Node("a", [("in", 0)]), Node("loss", [("a", 0), ("in", 1)], cls=LOSS, is_output=True)],
        # one layer with three consumers, one of them without gradient
        [Node("in", is_input=True, cls=TRAIN), Node("a", [("in", 0)]), Node("b", [("a", 0)]), Node("c", [("a", 0)]), Node("d", [("a", 0, False)]),
         Node("e", [("b", 0), ("c", 0), ("d", 0)], cls=LOSS, is_output=True)],
        # a consumer that uses the same source twice
        [Node("in", is_input=True, cls=TRAIN), Node("a", [("in", 0)]), Node("b", [("a", 0), ("a", 0)], cls=LOSS, is_output=True)],
        # nested fan-out
        [Node("in", is_input=True, nout=4, cls=TRAIN), Node("a", [("in", 0)]), Node("b", [("a", 0), ("in", 2)]), Node("c", [("b", 0), ("a", 0)]),
         Node("d", [("b", 0), ("c", 0), ("in", 1)]), Node("s", [("b", 0), ("in", 1), ("in", 3)], cls=STAT), Node("e", [("d", 0)], cls=LOSS, is_output=True)],
        # two outputs
        [Node("in", is_input=True, nout=2, cls=TRAIN), Node("a", [("in", 0)]), Node("p", [("a", 0)], is_output=True), Node("q", [("a", 0), ("in", 1)], cls=LOSS, is_output=True)],
    ]
    return fixed + [random_shape(rng, rng.randint(3, 6)) for _ in range(count)]


def enabled(sh):
    """consumer connections that carry gradients: source -> [(consumer, index)]"""
    by = {n.name: n for n in sh}
    out = {n.name: [] for n in sh}
    for n in sh:
        for i, (src, b, bp) in enumerate(n.inputs):
            if bp and not by[src].is_input:
                out[src].append((n.name, i))
    return out


def once(ev, what, layers, G):
    pos = {}
    for i, e in enumerate(ev):
        if e["what"] == what:
            need(e["layer"] not in pos, "%s is called twice" % what, layer=G.name(e["layer"]))
            pos[e["layer"]] = i
    for l in layers:
        need(l in pos, "%s is not called" % what, layer=G.name(l))
    return pos


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["graph shapes of at most nine nodes (fixed shapes and %d generated ones); layers with gradient consumers have one output" % (40 if R.thorough else 12),
                      "layers record the calls they receive and do nothing else"]
    rng = random.Random(R.seed)
    SH = shapes(rng, 40 if R.thorough else 12)

    def where(name):
        f = prog.byq[GR + "::" + name][0]
        return "%s:%d" % (f["file"], f["line"])

    def all_shapes(fn, key, at, rule, build=True, subset=None):
        def g():
            n = 0
            for k, sh in enumerate(subset or SH):
                order = [x.name for x in sh]
                if k % 3 == 2:
                    random.Random(k).shuffle(order)
                G = Graph(prog, sh)
                desc = {"nodes": [(x.name, x.inputs, x.cls.split("::")[-1]) for x in sh], "added": order}
                try:
                    if build:
                        G.add(order)
                        r = G.call("Initialize")
                        need(r is not None, "Initialize refuses the graph")
                        fn(sh, G, r)
                    else:
                        fn(sh, G, order)
                except Bad as e:
                    return Verdict("different", None, dict(e.args[0], graph=desc))
                n += 1
            R.uses(*sorted(G.s.E.inlined))
            R.count("graphs", n)
            return Verdict("equal", "partial evaluation", points=n)
        R.guard(key, where(at), rule, g)

    # ---- registration
    def registered(sh, G, order):
        G.add(order)
        by = {n.name: n for n in sh}
        need([G.node[x] for x in order] == list(G.vector("GetNodes")), "nodes are not kept in the order they were added")
        for getter, test in (("GetOutputNodes", lambda n: n.is_output), ("GetLossNodes", lambda n: "Conv::LossFunctionLayer" in prog.ancestors(n.cls)),
                             ("GetTrainingNodes", lambda n: "Conv::TrainingLayer" in prog.ancestors(n.cls)), ("GetStatNodes", lambda n: "Conv::StatLayer" in prog.ancestors(n.cls))):
            want = [G.node[x] for x in order if test(by[x])]
            need(want == list(G.vector(getter)), "%s differs from the nodes of that kind" % getter, found=[show(x) for x in G.vector(getter)], required=[show(x) for x in want])
        names = [G.s.get(G.node[x], "unique_name") for x in order]
        need(all(x is not mk("str", "") for x in names), "a node keeps an empty name")
    all_shapes(registered, "registries", "AddNode", "output, loss, training and statistics nodes are listed in order", build=False)

    def ids(sh, G, order):
        # generated names come from a counter: all different
        G.add(order)
        seen = [e.d["val"] for e in G.s.log if e.kind == "out" and is_num(e.d["val"])]
        need(len(set(seen)) >= len(order), "generated node names repeat", numbers=[show(x) for x in seen])
    all_shapes(ids, "names", "AddNode", "nodes without a name get different names", build=False)

    # ---- initialisation
    def tensors(sh, G, ev):
        out = {}
        for e in ev:
            if e["what"] == "Connect":
                out[e["layer"]] = e["a"]
        return out

    def data(G, t):
        return G.s.query(T_, "data_ptr_const", addr(fld(el(t), "data")), nparams=0)

    def init(sh, G, ev):
        mine = [G.layer[n.name] for n in sh]
        cr = once(ev, "CreateOutputs", mine, G)
        co = once(ev, "Connect", mine, G)
        ts = tensors(sh, G, ev)
        owner = {}
        for l, (i, o) in ts.items():
            for k, t in enumerate(o):
                owner[t] = (l, k)
        for l in co:
            need(l in cr and cr[l] < co[l], "a layer is connected before it created its outputs", layer=G.name(l))
            a = [e for e in ev if e["what"] == "CreateOutputs" and e["layer"] is l][0]["a"]
            need(a == ts[l][0], "Connect gets other inputs than CreateOutputs", layer=G.name(l))
            for t in a:
                need(t in owner, "a layer gets a tensor no layer created", layer=G.name(l), tensor=show(t))
                need(co[owner[t][0]] < cr[l], "a layer is initialised before its source", layer=G.name(l), source=G.name(owner[t][0]))
        for n in sh:
            l = G.layer[n.name]
            i, o = ts[l]
            need(list(o) == [G.tensor(n.name, k) for k in range(n.nout)], "Connect does not get the tensors the layer created", layer=n.name)
            need(len(i) == len(n.inputs), "number of inputs", layer=n.name, found=len(i), required=len(n.inputs))
            for k, (src, b, bp) in enumerate(n.inputs):
                want = G.tensor(src, b)
                t = i[k]
                if t is want:
                    continue
                ol, ok = owner[t]
                need(ol.op == "alloc" and ts[ol][0] == (want,), "input does not come from the connected buffer", layer=n.name, input=k, found=show(t), required=show(want))
                need(data(G, t) is data(G, want), "fan-in output does not share the data of its source", layer=n.name, input=k)
        bufs = [(n.name, k) for n in sh for k in range(n.nout)]
        for name, k in bufs:
            t = G.s.E.load(fld(el(mk("vdata", fld(el(G.node[name]), "output_buffers")), num(k)), "combined_tensor"), G.s.st)
            need(t is G.tensor(name, k), "output buffer of a node does not hold the tensor of its layer", node=name, buffer=k)
        need(G.call("Initialize") == [], "a second Initialize touches layers again")
    all_shapes(init, "initialisation", "InitializeNode", "every layer is created and connected once, after its sources, with the tensors of its connections in order")

    # ---- fan-in
    def fanin(sh, G, ev):
        ts = tensors(sh, G, ev)
        en = enabled(sh)
        by = {n.name: n for n in sh}
        for src, cons in en.items():
            got = [ts[G.layer[c]][0][i] for c, i in cons]
            need(len(set(got)) == len(got), "two connections write their gradient to the same tensor", source=src, consumers=cons)
            if len(cons) < 2:
                continue
            users = {t: [] for t in got}
            gas = {l for l, (i, o) in ts.items() if l.op == "alloc" and any(t in o for t in got)}
            need(len(gas) == 1 and all(l.a[1] == GA for l in gas), "gradients of several consumers are not collected by one accumulation layer", source=src)
            ga = gas.pop()
            need(set(ts[ga][1]) == set(got), "the accumulation layer has outputs nobody uses, or not all consumers", source=src)
            need(ts[ga][0] == (G.tensor(src, 0),), "the accumulation layer does not feed the source", source=src)
    all_shapes(fanin, "gradient fan-in", "Initialize", "every gradient-carrying connection has its own tensor; several consumers are summed by one accumulation layer")

    # ---- passes
    def ga_of(sh, G, ev):
        ts = tensors(sh, G, ev)
        return {l: (i, o) for l, (i, o) in ts.items() if l.op == "alloc"}, ts

    def sources(ts):
        own = {t: l for l, (i, o) in ts.items() for t in o}
        return {l: [own[t] for t in i] for l, (i, o) in ts.items()}

    def check_forward(ev, ts, layers, G):
        need(all(e["what"] == "FeedForward" for e in ev), "a forward pass calls something else", calls=sorted({e["what"] for e in ev}))
        pos = once(ev, "FeedForward", layers, G)
        src = sources(ts)
        for l in pos:
            for m in src[l]:
                need(m in pos and pos[m] < pos[l], "a layer runs before its source", layer=G.name(l), source=G.name(m))
        return pos

    def forward(sh, G, ev):
        ts = tensors(sh, G, ev)
        for k in range(2):
            e = G.call("FeedForward")
            check_forward(e, ts, list(ts), G)
            need(len(e) == len(ts), "number of layer calls", found=len(e), required=len(ts))
    all_shapes(forward, "forward pass", "FeedForward", "every layer runs once per pass, after its sources; a second pass runs them again")

    def forward_part(sh, G, ev):
        ts = tensors(sh, G, ev)
        src = sources(ts)
        pick = [sh[len(sh) // 2], sh[-1]][:1 + len(sh) % 2]
        todo, want = [G.layer[n.name] for n in pick], set()
        while todo:
            l = todo.pop()
            if l not in want:
                want.add(l)
                todo += src[l]
        lv = G.s.vec("some", [G.node[n.name] for n in pick])
        e = G.call("FeedForward", lv, T, ptypes=["vector", "bool"])
        pos = check_forward(e, ts, want, G)
        need(set(pos) == want, "a partial pass runs other layers than the requested ones and their sources")
        e = G.call("FeedForward", lv, F, ptypes=["vector", "bool"])
        need(e == [], "layers already run are run again although the marks were kept", again=[G.name(x["layer"]) for x in e])
    all_shapes(forward_part, "partial forward pass", "FeedForward", "requested nodes and their sources run once; kept marks are respected")

    def grad_consumers(sh, G, ts):
        """layer -> layers whose gradient it needs"""
        own = {t: l for l, (i, o) in ts.items() for t in o}
        out = {l: set() for l in ts}
        flag = {}
        by = {n.name: n for n in sh}
        for n in sh:
            l = G.layer[n.name]
            flag[l] = False
            for k, (src, b, bp) in enumerate(n.inputs):
                if bp and not by[src].is_input:
                    flag[l] = True
                    out[own[ts[l][0][k]]].add(l)
        for l, (i, o) in ts.items():
            if l.op == "alloc":
                flag[l] = True
                out[own[i[0]]].add(l)
        return out, flag

    def check_backward(ev, ts, G, cons, flag, layers):
        pos = once(ev, "BackPropagate", layers, G)
        need({e["what"] for e in ev} <= {"BackPropagate", "SetBackpropagationEnabled"}, "a backward pass calls something else")
        for l, i in pos.items():
            st = [e for e in ev[:i] if e["what"] == "SetBackpropagationEnabled" and e["layer"] is l]
            if st and not texts.settled(st[-1]["a"][0]):
                raise Unknown("whether %s is told that its sources need gradients: %s" % (G.name(l), show(st[-1]["a"][0])[:100]))
            need(len(st) >= 1 and st[-1]["a"][0] is (T if flag[l] else F), "a layer is told wrongly whether its sources need gradients", layer=G.name(l),
                 found=[show(e["a"][0]) for e in st], required=flag[l])
            for m in cons[l]:
                need(m in pos and pos[m] < i, "a layer propagates back before a consumer", layer=G.name(l), consumer=G.name(m))
        return pos

    def backward(sh, G, ev):
        ts = tensors(sh, G, ev)
        cons, flag = grad_consumers(sh, G, ts)
        for k in range(2):
            G.call("FeedForward")
            e = G.call("BackPropagate")
            pos = check_backward(e, ts, G, cons, flag, list(ts))
            need(len(pos) == len(ts), "number of layer calls", found=len(pos), required=len(ts))
    all_shapes(backward, "backward pass", "BackPropagate", "every layer propagates back once per pass, after all consumers it gets gradients from, told whether its sources need gradients")

    def backward_part(sh, G, ev):
        ts = tensors(sh, G, ev)
        cons, flag = grad_consumers(sh, G, ts)
        n = [x for x in sh if not x.is_input][0]
        todo, want = [G.layer[n.name]], set()
        while todo:
            l = todo.pop()
            if l not in want:
                want.add(l)
                todo += cons[l]
        lv = G.s.vec("some", [G.node[n.name]])
        e = G.call("BackPropagate", lv, T, ptypes=["vector", "bool"])
        need(set(check_backward(e, ts, G, cons, flag, want)) == want, "a partial pass runs other layers than the requested ones and their consumers")
        need(G.call("BackPropagate", lv, F, ptypes=["vector", "bool"]) == [], "layers already run are run again although the marks were kept")
    all_shapes(backward_part, "partial backward pass", "BackPropagate", "requested nodes and their gradient consumers run once; kept marks are respected")

    # ---- weights
    def weights(sh, G, ev):
        ts = tensors(sh, G, ev)
        cons, flag = grad_consumers(sh, G, ts)
        for k in range(2):
            e = G.call("InitializeWeights")
            pos = once(e, "OnLayerConnect", list(ts), G)
            need(len(e) == len(ts), "calls something else than OnLayerConnect")
            for l, i in pos.items():
                got = list(e[i]["a"])
                need(set(got) == cons[l], "layer is introduced to other layers than its consumers", layer=G.name(l), found=[G.name(x) for x in got], required=[G.name(x) for x in cons[l]])
                for m in cons[l]:
                    need(pos[m] < i, "weights are initialised before those of a consumer", layer=G.name(l), consumer=G.name(m))
    all_shapes(weights, "weight initialisation", "InitializeWeights", "every layer is introduced once to the layers that consume its output, after them")

    # ---- loss, statistics
    def loss(sh, G, ev):
        G.call("AggregateLoss")
        want = ZERO
        for n in sh:
            if "Conv::LossFunctionLayer" in prog.ancestors(n.cls):
                want = add(want, sym("loss_" + n.name))
        need(G.ret is want, "the aggregate loss is not the sum over the loss layers", found=show(G.ret), required=show(want))
    all_shapes(loss, "aggregate loss", "AggregateLoss", "sum of the values of all loss layers")

    def stats(sh, G, ev):
        for on in (F, T):
            e = G.call("SetStatLayersEnabled", on)
            want = [G.layer[n.name] for n in sh if "Conv::StatLayer" in prog.ancestors(n.cls)]
            pos = once(e, "SetDisabled", want, G)
            need(set(pos) == set(want), "another layer is switched")
            need(all(x["a"][0] is not_(on) for x in e), "statistics layers are switched the wrong way")
    all_shapes(stats, "statistics layers", "SetStatLayersEnabled", "all statistics layers are switched together", subset=[s for s in SH if any(n.cls == STAT for n in s)])

    # ---- refusals
    def refuse():
        sh = SH[3]
        G = Graph(prog, sh)
        if G.call("AddNode", NULL) is not None:
            return Verdict("different", None, {"what": "a null node is accepted"})
        G.s.st.env[fld(el(G.node["a"]), "layer")] = NULL
        if G.call("AddNode", G.node["a"]) is not None:
            return Verdict("different", None, {"what": "a node without a layer is accepted"})
        n = 0
        for x in sh:
            for what in ("CreateOutputs", "Connect"):
                if Graph(prog, sh, fail=(what, x.name)).add().call("Initialize") is not None:
                    return Verdict("different", None, {"what": "Initialize goes on after a layer refused", "layer": x.name, "in": what})
            if Graph(prog, sh, wrong=x.name).add().call("Initialize") is not None:
                return Verdict("different", None, {"what": "Initialize accepts a layer that creates a wrong number of outputs", "layer": x.name})
            n += 3
        return Verdict("equal", "partial evaluation", points=n)
    R.guard("refusals", where("InitializeNode"), "null nodes, refusing layers and wrong output counts end in an exception", refuse)
