"""Ownership of tensor memory: every buffer released exactly once, by the right mechanism."""
from terms import *
from session import Session
from program import program
from compare import at_points, Verdict, Unknown, Unrelated, cptr, cnum, asint

MIN = 8
T_, C_ = "Conv::Tensor", "Conv::CompressedTensor"
KINDS = ("store", "new", "delete", "call", "throw")
RULE = "each buffer obtained is released exactly once, by the matching mechanism, and never used after"


def points(rng):
    asg = {}
    for suf in ("", "2", "3"):
        for n in ("S", "W", "H", "M"):
            asg[sym(n + suf)] = rng.randint(0 if rng.random() < 0.15 else 1, 3)
        asg[sym("L" + suf)] = rng.randint(0 if rng.random() < 0.2 else 1, 9)
    if rng.random() < 0.4:
        v = [asg[sym(n)] for n in "SWHM"]
        rng.shuffle(v)
        for n, x in zip("SWHM", v):
            asg[sym(n + "2")] = x
    asg[sym("fd")] = rng.randint(3, 9)
    return asg


class Scenario:
    def __init__(self, prog, R):
        self.s = Session(prog, nonempty=False, depth=16, dtors=True)
        self.eff, self.R, self.live, self.n = [], R, [], 0
        self.given = {}

    def call(self, cls, t, name, args, n=None):
        f = self.s.method(cls, name, n if n is not None else len(args))
        r = self.s.run(f, this=t, args=dict(enumerate(args)), cls=cls)
        self.R.uses(f["q"])
        self.eff += r.effects
        return r

    def new(self, cls, args, ptypes=None):
        from session import find_ctor
        self.n += 1
        name = "t%d" % self.n
        p = self.s.obj(name)
        f = find_ctor(self.s.prog, cls, len(args), ptypes)
        self.s.E.dyn[p] = cls
        r = self.s.run(f, this=p, args=dict(enumerate(args)), cls=cls)
        self.eff += r.effects
        self.live.append((p, cls))
        return p

    def end(self):
        for p, cls in reversed(self.live):
            self.destroy(p, cls)
        self.live = []

    def destroy(self, p, cls):
        self.eff += self.s.destroy(p, cls)

    def drop(self, p):
        cls = [c for q, c in self.live if q is p][0]
        self.live = [x for x in self.live if x[0] is not p]
        self.destroy(p, cls)


def walk_events(P, c):
    """None or a witness: the ownership automaton over the executed events"""
    live, maps, bad = {}, {}, []

    def on(e, c):
        if bad:
            return
        k = e.kind
        at = e.where()
        if k == "new" and e.d["arr"] is not None:
            live[e.d["ptr"]] = (cptr(e.d["ptr"])(c), bool(e.d["arr"]), at)
        elif k == "delete":
            b, o = cptr(e.d["ptr"])(c)
            if b == ("null",):
                return
            hit = [x for x, v in live.items() if v[0] == (b, o)]
            if not hit:
                bad.append({"what": "%s releases memory that is not owned (already released, shared or mapped)" % at, "at": at, "pointer": repr(b)})
            elif live[hit[0]][1] != bool(e.d["arr"]):
                bad.append({"what": "%s: wrong form of delete" % at, "at": at})
            else:
                del live[hit[0]]
        elif k == "call" and e.d["q"] in ("mmap", "mmap64"):
            maps[cptr(e.d["ret"])(c)] = (asint(cnum(e.d["args"][1])(c)), at)
        elif k == "call" and e.d["q"] == "munmap":
            p = cptr(e.d["args"][0])(c)
            try:
                n = asint(cnum(e.d["args"][1])(c))
            except Unrelated:
                n = -1
            if p not in maps:
                bad.append({"what": "%s unmaps an address that is not a live mapping" % at, "at": at, "pointer": repr(p)})
            elif maps[p][0] != n:
                bad.append({"what": "%s: mapping of %d bytes released with length %s" % (at, maps[p][0], n if n >= 0 else "computed from another buffer"), "at": at})
            else:
                del maps[p]
        elif k == "call" and e.d["q"] in ("free", "mkl_free", "realloc"):
            bad.append({"what": "%s: released with %s" % (at, e.d["q"]), "at": at})
        elif k == "throw":
            raise Unknown("throws")
    P.run(c, on)
    if bad:
        return bad[0]
    if live:
        v = next(iter(live.values()))
        return {"what": "memory allocated at %s is never released" % v[2], "at": v[2]}
    if maps:
        v = next(iter(maps.values()))
        return {"what": "mapping made at %s is never released" % v[1], "at": v[1]}
    return None


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["mmap succeeds or its failure is fatal (checked separately)", "std::istream reads fill the given buffers"]
    A, B, Cc = [[sym(n + s) for n in "SWHM"] for s in ("", "2", "3")]
    D, I = ["Tensor &&"], ["Tensor &", "bool"]

    def load(sc, cls, t, mmap, head=F):
        st = el(sc.s.obj("in"))
        sc.call(cls, t, "Deserialize", [st, head, T if mmap else F, num(5) if mmap else ZERO])

    def sc_resize(sc, cls=T_):
        t = sc.new(T_, A)
        sc.call(T_, t, "Resize", B + [NULL, F, F])
        sc.call(T_, t, "Resize", Cc + [NULL, F, F])

    def sc_shadow(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, B)
        sc.call(T_, t, "Shadow", [el(o)])

    def sc_shadow_resize(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [])
        sc.call(T_, t, "Shadow", [el(o)])
        sc.call(T_, t, "Resize", B + [NULL, F, F])

    def sc_shadow_twice(sc):
        o = sc.new(T_, A)
        q = sc.new(T_, B)
        t = sc.new(T_, [])
        sc.call(T_, t, "Shadow", [el(o)])
        sc.call(T_, t, "Shadow", [el(q)])

    def sc_move(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [el(o)], D)
        sc.call(T_, o, "Resize", B + [NULL, F, F])

    def sc_move_shadow(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [])
        sc.call(T_, t, "Shadow", [el(o)])
        sc.new(T_, [el(t)], D)

    def sc_move_mapped(sc):
        t = sc.new(T_, [])
        load(sc, T_, t, True)
        u = sc.new(T_, [el(t)], D)
        sc.call(T_, t, "Resize", B + [NULL, F, F])

    def sc_copy(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [el(o), T], I)

    def sc_copy_shadow(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [])
        sc.call(T_, t, "Shadow", [el(o)])
        sc.new(T_, [el(t), T], I)

    def sc_transpose(sc):
        o = sc.new(T_, A)
        sc.call(T_, o, "Transpose", [])

    def loads(*modes):
        def g(sc, cls):
            t = sc.new(cls, [])
            for m in modes:
                load(sc, cls, t, m)
        return g

    def map_resize(sc):
        t = sc.new(T_, [])
        load(sc, T_, t, True)
        sc.call(T_, t, "Resize", B + [NULL, F, F])

    def map_shadow(sc):
        o = sc.new(T_, A)
        t = sc.new(T_, [])
        load(sc, T_, t, True)
        sc.call(T_, t, "Shadow", [el(o)])

    def map_delete(sc):
        t = sc.new(T_, A)
        load(sc, T_, t, True)
        sc.call(T_, t, "DeleteIfPossible", [])
        sc.call(T_, t, "DeleteIfPossible", [])
        sc.call(T_, t, "Resize", B + [NULL, F, F])

    def hand_over(sc):
        # a buffer handed to a tensor belongs to it
        t = sc.new(T_, A)
        buf = mk("alloc", 990001, "float")
        from engine import Effect
        sc.eff.append(Effect("new", (), (), 0, "caller", "caller", {"ptr": buf, "at": "float", "arr": True, "n": ONE}, ()))
        sc.s.assumed += [ge0(sub(x, ONE)) for x in B]
        sc.call(T_, t, "Resize", B + [buf, F, F])
        sc.call(T_, t, "Resize", Cc + [NULL, F, F])

    def combined(sc):
        t = sc.new("Conv::CombinedTensor", A)

    def c_resize(sc):
        t = sc.new(C_, [])
        sc.call(C_, t, "Resize", A + [sym("L"), NULL, F])
        sc.call(C_, t, "Resize", B + [sym("L2"), NULL, F])

    def c_compress(sc):
        src = sc.new(T_, A)
        sc.s.assumed += [ge0(sub(x, ONE)) for x in A]
        t = sc.new(C_, [])
        sc.call(C_, t, "Compress", [el(src)])
        sc.call(C_, t, "Compress", [el(src)])
    scen = [
        ("resize", T_, sc_resize), ("shadow", T_, sc_shadow), ("shadow, then resize", T_, sc_shadow_resize),
        ("shadow, then shadow another", T_, sc_shadow_twice), ("move", T_, sc_move), ("move a shadow", T_, sc_move_shadow),
        ("move a mapped tensor", T_, sc_move_mapped), ("copy", T_, sc_copy), ("copy a shadow", T_, sc_copy_shadow),
        ("transpose", T_, sc_transpose),
        ("map, then resize", T_, map_resize), ("map, then shadow", T_, map_shadow), ("map, release twice, resize", T_, map_delete),
        ("hand over a buffer", T_, hand_over), ("combined tensor", "Conv::CombinedTensor", combined),
        ("compressed: resize", C_, c_resize),
    ]
    for cls, nm in ((T_, "tensor"), (C_, "compressed")):
        for modes, d in (((False,), "read"), ((True,), "map"), ((True, True), "map, map again"), ((True, False), "map, then read"),
                         ((False, True), "read, then map"), ((False, False), "read twice")):
            scen.append(("%s: %s" % (nm, d), cls, (lambda m, cls: lambda sc: loads(*m)(sc, cls))(modes, cls)))
    if R.thorough:
        for cls, nm in ((T_, "tensor"), (C_, "compressed")):
            for m in ((True, True, True), (True, False, True), (False, True, False)):
                scen.append(("%s: load %s" % (nm, m), cls, (lambda m, cls: lambda sc: loads(*m)(sc, cls))(m, cls)))

    def ob(name, cls, body):
        f = prog.byq.get(cls + "::DeleteIfPossible") or [{"file": "include/cn24/util/CombinedTensor.h", "line": 1}]

        def g():
            sc = Scenario(prog, R)
            body(sc)
            sc.end()
            R.count("ownership events", len([e for e in sc.eff if e.kind in ("new", "delete")]))
            return at_points(sc.eff, points, walk_events, KINDS, assume=sc.s.assumptions(), want=100 if not R.thorough else 400, tries=600)
        R.guard(name, "%s:%d" % (f[0]["file"], f[0]["line"]), RULE, g)
    for name, cls, body in scen:
        ob(name, cls, body)
