"""Element-wise meaning of the tensor operations."""
from terms import *
from session import Session
from program import program
from compare import equiv, Verdict
from layercases import spec_effects

MIN = 8
T_ = "Conv::Tensor"


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["sizes are exact integers", "source and target are different tensors that own their memory",
                      "map indices passed to CopyMap exist in their tensors"]
    S, W, H, M, S2, W2, H2, M2 = [sym(x) for x in ("S", "W", "H", "M", "S2", "W2", "H2", "M2")]
    sn, sm, tn, tm, v, px, py = [sym(x) for x in ("sn", "sm", "tn", "tm", "v", "px", "py")]
    N1, N2 = mul(mul(S, W), mul(H, M)), mul(mul(S2, W2), mul(H2, M2))
    want = 400 if R.thorough else 120
    STY = (None, "ties", "negative", "negative ties")

    def pts(rng):
        a = {x: rng.randint(1, 3) for x in (S, W, H, M, S2)}
        a[W2], a[H2], a[M2] = [max(1, a[x] + rng.choice((0, 0, 1, 2, -1))) for x in (W, H, M)]
        if rng.random() < 0.3:
            a[W2], a[H2] = a[W], a[H]
        if rng.random() < 0.4:
            a[M2] = a[M]
        a[sn], a[tn] = rng.choice(((a[S], 0), (0, a[S2]), (a[S] + 1, 0), (a[S], a[S2])))
        if rng.random() < 0.6:
            a[sn], a[tn] = rng.randint(0, a[S] - 1), rng.randint(0, a[S2] - 1)
        a[sm], a[tm] = rng.randint(0, a[M] - 1), rng.randint(0, a[M2] - 1)
        a[px], a[py] = rng.randint(0, a[W] - 1), rng.randint(0, a[H] - 1)
        a[v] = rng.choice((0.0, 1.5, -2.25))
        return a

    def where(f):
        return "%s:%d" % (f["file"], f["line"])

    def two():
        s = Session(prog)
        a = s.construct(T_, "src", [S, W, H, M])
        b = s.construct(T_, "dst", [S2, W2, H2, M2])
        return s, a, b, s.query(T_, "data_ptr_const", a, nparams=0), s.query(T_, "data_ptr_const", b, nparams=0)

    def one(name, call, spec, also=()):
        """call(s, a, b, f) -> args; spec(pa, pb) -> (spec function, arguments); compares contents and result"""
        f = [g for g in prog.byq[T_ + "::" + name]][0]

        def g():
            s, a, b, pa, pb = two()
            pre = s.st.clone()
            this, args = call(s, a, b)
            r = s.run(f, this=this, args=args, cls=T_)
            R.uses(*s.fns)
            R.uses(*sorted(s.E.inlined))
            fn, sa, regs, result = spec(pa, pb)
            sp = spec_effects(fn, sa, pre)
            sc = [(ind(to_bool(r.ret)), ind(to_bool(sp.ret)))] if result == "bool" else [(r.ret, sp.ret)] if result else []
            return equiv(r.effects, sp.effects, regs, pts, s.assumptions(), seed=R.seed, want=want, scalars=sc, styles=STY if result is True else (None,), tries=4000)
        return f, g
    CP = "the target region equals the source, padding is zero, everything else is untouched; impossible requests are refused"
    MX = "result is the position of the first largest element"
    f, g = one("CopyMap", lambda s, a, b: (None, {0: el(a), 1: sn, 2: sm, 3: el(b), 4: tn, 5: tm}),
               lambda pa, pb: ("copy_map", [pa, S, W, H, M, sn, sm, pb, S2, W2, H2, M2, tn, tm], [pb, pa], "bool"))
    R.guard("copying a map", where(f), CP, g)
    f, g = one("CopySample", lambda s, a, b: (None, {0: el(a), 1: sn, 2: el(b), 3: tn}),
               lambda pa, pb: ("copy_sample", [pa, S, W, H, M, sn, pb, S2, W2, H2, M2, tn], [pb, pa], "bool"))
    R.guard("copying a sample", where(f), CP, g)
    f, g = one("Maximum", lambda s, a, b: (a, {0: sn}), lambda pa, pb: ("maximum", [pa, mul(mul(W, H), M), sn], [pa], True))
    R.guard("largest element of a sample", where(f), MX, g)
    f, g = one("AbsMaximum", lambda s, a, b: (a, {}), lambda pa, pb: ("absmaximum", [pa, N1], [pa], True))
    R.guard("element of largest magnitude", where(f), MX, g)
    f, g = one("PixelMaximum", lambda s, a, b: (a, {0: px, 1: py, 2: sn}),
               lambda pa, pb: ("pixelmaximum", [pa, W, H, M, px, py, sn], [pa], True))
    R.guard("strongest map at a pixel", where(f), MX, g)
    CL = "exactly the requested elements get the value"
    f, g = one("Clear", lambda s, a, b: (a, {0: v, 1: num(-1)}), lambda pa, pb: ("fill", [pa, ZERO, N1, v], [pa], False))
    R.guard("clearing a tensor", where(f), CL, g)
    E = mul(mul(W, H), M)
    f, g = one("Clear", lambda s, a, b: (a, {0: v, 1: sn}),
               lambda pa, pb: ("fill", [pa, mul(E, sn), mul(E, add(sn, ONE)), v], [pa], False))
    R.guard("clearing a sample", where(f), CL, g)

    def transpose():
        s, a, b, pa, pb = two()
        f = prog.byq[T_ + "::Transpose"][0]
        pre = s.st.clone()
        # the definition writes its result next to the original, which is compared with the tensor itself
        r = s.run(f, this=a, args={}, cls=T_)
        R.uses(*s.fns)
        q = s.query(T_, "data_ptr_const", a, nparams=0)
        if q is not pa:
            return Verdict("different", "the tensor changes its buffer", {"before": show(pa), "after": show(q)})
        tmp = addr(mk("gvar", "result"))
        sp = spec_effects("transpose", [pa, tmp, S, W, H, M], pre)
        return equiv(r.effects, sp.effects, [pa], pts, s.assumptions(), seed=R.seed, want=want)
    f = prog.byq[T_ + "::Transpose"][0]
    R.guard("transposing", where(f), "rows and columns of every map are exchanged", transpose)

    def copy():
        s, a, b, pa, pb = two()
        pre = s.st.clone()
        ctor = [f for f in prog.byq[T_ + "::Tensor"] if len(f["params"]) == 2][0]
        t = s.obj("copy")
        s.E.dyn[t] = T_
        r = s.run(ctor, this=t, args={0: el(a), 1: T}, cls=T_)
        R.uses(*s.fns)
        q = s.query(T_, "data_ptr_const", t, nparams=0)
        sp = spec_effects("copy_all", [q, pa, N1], pre)
        return equiv(r.effects, sp.effects, [q, pa], pts, s.assumptions(), seed=R.seed, want=want)
    f = [f for f in prog.byq[T_ + "::Tensor"] if len(f["params"]) == 2][0]
    R.guard("copy construction", where(f), "the copy has every element of the original", copy)
