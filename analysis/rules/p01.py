"""Tensor shape bookkeeping and addressing."""
import random
from terms import *
from session import Session
from program import program
from compare import values_agree, pointers_agree, Verdict, Unknown, cptr, Ctx

MIN = 12
T_ = "Conv::Tensor"
DIMS = ("samples", "width", "height", "maps")


def syms(suffix=""):
    return [sym(n + suffix) for n in ("S", "W", "H", "M")]


def points(extra=()):
    def g(rng):
        asg = {}
        for suf in ("", "2"):
            for n in ("S", "W", "H", "M"):
                asg[sym(n + suf)] = rng.randint(1, 4)
        if rng.random() < 0.5:
            # same number of elements, other shape
            v = [asg[sym(n)] for n in ("S", "W", "H", "M")]
            rng.shuffle(v)
            for n, x in zip(("S", "W", "H", "M"), v):
                asg[sym(n + "2")] = x
        for n in ("x", "y", "m", "s", "e"):
            asg[sym(n)] = rng.randint(0, 5)
        return asg
    return g


def dims(s, t):
    return [s.query(T_, d, t, nparams=0) for d in DIMS]


def elements(s, t):
    return s.query(T_, "elements", t, nparams=0)


def same_ptr(p, base, off):
    b, o = ptr_parts(p)
    if p.op == "addr" and p.a[0].op == "el":
        b, o = p.a[0].a[0], p.a[0].a[1]
    if b is not base:
        return Verdict("undecided", "address is not expressed relative to the tensor's buffer")
    return values_agree([(o, off)], points())


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions.append("sizes are exact integers (no overflow of the element count)")
    S, W, H, M = syms()
    S2, W2, H2, M2 = syms("2")
    x, y, m, smp, e = [sym(n) for n in ("x", "y", "m", "s", "e")]
    lay = add(mul(add(mul(add(mul(smp, M), m), H), y), W), x)

    def fresh_tensor():
        s = Session(prog)
        t = s.construct(T_, "t", [S, W, H, M])
        return s, t

    def where(name, n=None):
        c = [f for f in prog.byq.get(T_ + "::" + name, []) if n is None or len(f["params"]) == n]
        return "%s:%d" % (c[0]["file"], c[0]["line"]) if c else "src/util/Tensor.cpp"

    def agree(s, t, want, pts=None, assume=()):
        pairs = list(zip(dims(s, t), want)) + [(elements(s, t), mul(mul(want[0], want[1]), mul(want[2], want[3])))]
        v = values_agree(pairs, pts or points(), assume=list(s.assumptions()) + list(assume))
        return v

    SHAPE = "shape accessors report the requested shape and its product"

    def ob(name, at, rule, fn):
        def g():
            v = fn()
            return v
        R.guard(name, at, rule, g)

    def construct():
        s, t = fresh_tensor()
        R.uses(*s.fns)
        return agree(s, t, (S, W, H, M))
    ob("construction", where("Tensor", 4), SHAPE, construct)

    def resize():
        s, t = fresh_tensor()
        s.run(s.method(T_, "Resize", 7), this=t, args={0: S2, 1: W2, 2: H2, 3: M2, 4: mk("null"), 5: F, 6: F}, cls=T_)
        R.uses(*s.fns)
        return agree(s, t, (S2, W2, H2, M2))
    ob("resize", where("Resize", 7), SHAPE, resize)

    def resize_pre():
        s, t = fresh_tensor()
        p = addr(mk("gvar", "mem"))
        s.run(s.method(T_, "Resize", 7), this=t, args={0: S2, 1: W2, 2: H2, 3: M2, 4: p, 5: T, 6: F}, cls=T_)
        v = agree(s, t, (S2, W2, H2, M2), assume=())
        if v.kind != "equal":
            return v
        q = s.query(T_, "data_ptr", t, nparams=0)
        return pointers_agree(q, p, points(), assume=s.assumptions())
    ob("resize into given memory", where("Resize", 7), SHAPE, resize_pre)

    def resize_like():
        s, t = fresh_tensor()
        o = s.construct(T_, "o", [S2, W2, H2, M2])
        s.run(s.method(T_, "Resize", 1), this=t, args={0: el(o)}, cls=T_)
        return agree(s, t, (S2, W2, H2, M2))
    ob("resize like another tensor", where("Resize", 1), SHAPE, resize_like)

    def shadow():
        s, t = fresh_tensor()
        o = s.construct(T_, "o", [S2, W2, H2, M2])
        s.run(s.method(T_, "Shadow"), this=t, args={0: el(o)}, cls=T_)
        v = agree(s, t, (S2, W2, H2, M2))
        if v.kind != "equal":
            return v
        p, q = s.query(T_, "data_ptr", t, nparams=0), s.query(T_, "data_ptr", o, nparams=0)
        return v if p is q else Verdict("different", "shadow does not refer to the other tensor's buffer")
    ob("shadow", where("Shadow"), SHAPE, shadow)

    def copy():
        s, o = fresh_tensor()
        t = s.construct(T_, "t2", [el(o), T], ptypes=["Tensor &", "bool"])
        v = agree(s, t, (S, W, H, M))
        if v.kind != "equal":
            return v
        p, q = s.query(T_, "data_ptr", t, nparams=0), s.query(T_, "data_ptr", o, nparams=0)
        return v if p is not q else Verdict("different", "copy shares the source's buffer")
    ob("copy construction", where("Tensor", 2), SHAPE, copy)

    def move():
        s, o = fresh_tensor()
        p = s.query(T_, "data_ptr", o, nparams=0)
        t = s.construct(T_, "t2", [el(o)], ptypes=["Tensor &&"])
        v = agree(s, t, (S, W, H, M))
        if v.kind != "equal":
            return v
        q = s.query(T_, "data_ptr", t, nparams=0)
        if q is not p:
            return Verdict("different", None, {"expected": "the moved tensor has the source's buffer", "found": show(q)})
        z = agree(s, o, (ZERO, ZERO, ZERO, ZERO))
        return z if z.kind != "equal" else v
    ob("move construction", where("Tensor", 1), SHAPE, move)

    def release():
        s, t = fresh_tensor()
        s.run(s.method(T_, "DeleteIfPossible"), this=t, cls=T_)
        return agree(s, t, (ZERO, ZERO, ZERO, ZERO))
    ob("release", where("DeleteIfPossible"), SHAPE, release)

    def transpose():
        s, t = fresh_tensor()
        s.run(s.method(T_, "Transpose"), this=t, cls=T_)
        return agree(s, t, (S, H, W, M))
    ob("transpose", where("Transpose"), SHAPE, transpose)

    def load():
        s, t = fresh_tensor()
        st = s.obj("in")
        r = s.run(s.method(T_, "Deserialize"), this=t, args={0: st, 1: F, 2: F, 3: ZERO}, cls=T_)
        d = dims(s, t)
        want = mul(mul(d[0], d[1]), mul(d[2], d[3]))
        return values_agree([(elements(s, t), want)], points(), assume=s.assumptions())
    ob("load", where("Deserialize"), "element count is the product of the loaded dimensions", load)

    def reshape():
        s, t = fresh_tensor()
        r = s.run(s.method(T_, "Reshape"), this=t, args={0: S2, 1: W2, 2: H2, 3: M2}, cls=T_)
        n1, n2 = mul(mul(S, W), mul(H, M)), mul(mul(S2, W2), mul(H2, M2))
        fits = eq0(sub(n1, n2))
        ret = r.ret
        pairs = [(ind(to_bool(ret)), ind(fits))]
        for a, b, o in zip(dims(s, t), (S2, W2, H2, M2), (S, W, H, M)):
            pairs.append((a, ite(fits, b, o)))
        pairs.append((elements(s, t), n1))
        return values_agree(pairs, points(), assume=s.assumptions(), want=20)
    ob("reshape", where("Reshape"), "succeeds exactly when the element count is unchanged; shape follows", reshape)

    def accessor(name, n, args, want):
        def f():
            s, t = fresh_tensor()
            base = s.query(T_, "data_ptr", t, nparams=0)
            r = s.fork().run(s.method(T_, name, n), this=t, args=dict(enumerate(args)), cls=T_)
            R.uses(T_ + "::" + name)
            v = r.ret
            return same_ptr(v, base, want)
        return f
    ADDR = "address is the documented layout offset from the buffer"
    for name in ("data_ptr", "data_ptr_const"):
        ob(name + "(x,y,map,sample)", where(name, 4), ADDR, accessor(name, 4, [x, y, m, smp], lay))
        ob(name + "()", where(name, 0), ADDR, accessor(name, 0, [], ZERO))
    for name in ("operator[]", "operator()"):
        ob(name, where(name, 1), ADDR, accessor(name, 1, [e], e))

    def offset():
        s, t = fresh_tensor()
        r = s.query(T_, "Offset", t, args={0: x, 1: y, 2: m, 3: smp})
        return values_agree([(r, lay)], points())
    ob("Offset", where("Offset"), ADDR, offset)

    # omitted coordinates are zero at every call site with fewer arguments
    n = 0
    for f in prog.byq.get(T_ + "::data_ptr", []) + prog.byq.get(T_ + "::data_ptr_const", []):
        for p in f["params"][1:]:
            n += 1
    R.count("coordinate parameters", n)
