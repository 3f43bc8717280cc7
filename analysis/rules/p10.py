"""Tensor math routines: reference code and BLAS calls against their definitions."""
import random
from terms import *
from session import Session
from program import program
from compare import equiv, values_agree, pointers_agree, Verdict, Unknown, cnum, cptr, Ctx
from layercases import spec_effects

MIN = 8
T_ = "Conv::Tensor"
TM = "Conv::TensorMath::"
DN = ("samples", "width", "height", "maps")


def run(R):
    R.assumptions += ["real arithmetic: rounding is outside the summaries", "operands do not overlap",
                      "cblas_sgemm and cblas_sgemv compute what the BLAS standard defines", "operands contain the rows and columns the call names"]
    want = 300 if R.thorough else 80

    def ten(s, name):
        d = [sym(name + x) for x in ("S", "W", "H", "M")]
        t = s.construct(T_, name, d)
        return t, d, s.query(T_, "data_ptr_const", t, nparams=0)

    def at(prog, name):
        f = prog.byq[TM + name][0]
        return f, "%s:%d" % (f["file"], f["line"])

    def pad(p, d, sm):
        """pointer to sample sm of a tensor with dimensions d"""
        return padd(p, mul(mul(mul(d[1], d[2]), d[3]), sm))

    P = {x: sym(x) for x in ("M", "N", "K", "alpha", "beta", "smA", "smB", "smC", "ldA", "ldB", "ldC", "ta", "tb", "inx", "iny", "rm")}
    TA, TB, RMJ = ge0(sub(P["ta"], ONE)), ge0(sub(P["tb"], ONE)), ge0(sub(P["rm"], ONE))

    def gpts(rng):
        a = {sym(n + x): rng.randint(1, 4) for n in "ABC" for x in ("S", "W", "H", "M")}
        for x in ("M", "N", "K"):
            a[P[x]] = rng.randint(1, 4)
        for x in ("smA", "smB", "smC"):
            a[P[x]] = rng.randint(0, 2)
        for x in ("ldA", "ldB", "ldC"):
            a[P[x]] = 4 + rng.randint(0, 2)
        a[P["ta"]], a[P["tb"]] = rng.randint(0, 1), rng.randint(0, 1)
        a[P["rm"]] = 1
        a[P["inx"]], a[P["iny"]] = rng.randint(1, 3), rng.randint(1, 3)
        a[P["alpha"]] = rng.choice((1.0, -0.5, 2.25))
        a[P["beta"]] = rng.choice((0.0, 1.0, 0.75))
        return a

    def gemm_args(s):
        A, B, C = ten(s, "A"), ten(s, "B"), ten(s, "C")
        v = dict(is_row_major=RMJ, transpose_A=TA, transpose_B=TB, M=P["M"], N=P["N"], K=P["K"], alpha=P["alpha"], A=el(A[0]), smA=P["smA"], ldA=P["ldA"],
                 B=el(B[0]), smB=P["smB"], ldB=P["ldB"], beta=P["beta"], C=el(C[0]), smC=P["smC"], ldC=P["ldC"])
        order = ["is_row_major", "transpose_A", "transpose_B", "M", "N", "K", "alpha", "A", "smA", "ldA", "B", "smB", "ldB", "beta", "C", "smC", "ldC"]
        return {i: v[n] for i, n in enumerate(order)}, pad(A[2], A[1], P["smA"]), pad(B[2], B[1], P["smB"]), pad(C[2], C[1], P["smC"]), C[2]

    def gemv_args(s):
        A, B, C = ten(s, "A"), ten(s, "B"), ten(s, "C")
        order = [RMJ, TA, P["M"], P["N"], P["alpha"], el(A[0]), P["smA"], P["ldA"], el(B[0]), P["smB"], P["inx"], P["beta"], el(C[0]), P["smC"], P["iny"]]
        return dict(enumerate(order)), pad(A[2], A[1], P["smA"]), pad(B[2], B[1], P["smB"]), pad(C[2], C[1], P["smC"]), C[2]

    def dense(name):
        prog = program("ref")
        R.configs.add("ref")
        f, where = at(prog, name)

        def g():
            s = Session(prog)
            args, a, b, c, root = (gemm_args if name == "GEMM" else gemv_args)(s)
            pre = s.st.clone()
            r = s.run(f, args=args)
            R.uses(*s.fns)
            if name == "GEMM":
                sp = spec_effects("gemm", [TA, TB, P["M"], P["N"], P["K"], P["alpha"], a, P["ldA"], b, P["ldB"], P["beta"], c, P["ldC"]], pre)
            else:
                sp = spec_effects("gemv", [TA, P["M"], P["N"], P["alpha"], a, P["ldA"], b, P["inx"], P["beta"], c, P["iny"]], pre)
            return equiv(r.effects, sp.effects, [root], gpts, [x for x in s.assumptions()], seed=R.seed, want=want * 3, tries=6000)
        R.guard("%s without BLAS" % name, where, "row-major result equals the BLAS definition", g)

    def blas(name):
        prog = program("blas")
        R.configs.add("blas")
        f, where = at(prog, name)

        def g():
            s = Session(prog)
            args, a, b, c, root = (gemm_args if name == "GEMM" else gemv_args)(s)
            r = s.run(f, args=args)
            R.uses(*s.fns)
            calls = [e for e in r.effects if e.kind == "call" and e.d["q"].startswith("cblas_")]
            other = [e for e in r.effects if e.kind == "store" and e.d["lv"].op == "el"]
            if len(calls) != 1 or calls[0].pc or calls[0].loops:
                return Verdict("different", None, {"what": "expected exactly one unconditional BLAS call", "found": [e.d["q"] for e in calls]})
            fn = {"GEMM": "cblas_sgemm", "GEMV": "cblas_sgemv"}[name]
            if calls[0].d["q"] != fn:
                return Verdict("different", None, {"what": "calls another routine", "found": calls[0].d["q"], "required": fn})
            if other:
                return Verdict("different", None, {"what": "writes memory besides the BLAS call", "at": other[0].line})
            x = calls[0].d["args"]
            order = sub(num(102), ind(RMJ))
            tr = lambda t: add(num(111), ind(t))
            if name == "GEMM":
                need = [order, tr(TA), tr(TB), P["M"], P["N"], P["K"], P["alpha"], a, P["ldA"], b, P["ldB"], P["beta"], c, P["ldC"]]
            else:
                need = [order, tr(TA), P["M"], P["N"], P["alpha"], a, P["ldA"], b, P["inx"], P["beta"], c, P["iny"]]
            if len(x) != len(need):
                return Verdict("different", None, {"what": "number of arguments", "found": len(x), "required": len(need)})
            pts = lambda rng: dict(gpts(rng), **{P["rm"]: rng.randint(0, 1)}) if False else {**gpts(rng), P["rm"]: rng.randint(0, 1)}
            worst = Verdict("equal", "normal form")
            for i, (u, v) in enumerate(zip(x, need)):
                if u is v:
                    continue
                q = (pointers_agree if v in (a, b, c) else lambda u, v, *k, **kw: values_agree([(u, v)], *k, **kw))(u, v, pts, assume=s.assumptions(), want=30)
                if q.kind != "equal":
                    if q.kind == "different":
                        q.witness["what"] = "argument %d of %s" % (i, fn)
                    return q
                worst = q
            return worst
        R.guard("%s with BLAS" % name, where, "the BLAS call gets exactly the operands of the definition", g)
    for n in ("GEMM", "GEMV"):
        dense(n)
        blas(n)

    prog = program("ref")
    W, H, M, N = [sym("A" + x) for x in ("W", "H", "M", "S")]
    rw, rh, fac, smp, val = sym("rw"), sym("rh"), sym("fac"), sym("smp"), sym("val")
    kw, kh, sw, sh, pw, ph = [sym(x) for x in ("kw", "kh", "sw", "sh", "pw", "ph")]

    def simple(name, title, build, pts, assume=(), rule="result equals the definition"):
        f, where = at(prog, name)

        def g():
            s = Session(prog)
            args, spec, regs = build(s)
            pre = s.st.clone()
            r = s.run(f, args=args)
            R.uses(*s.fns)
            sp = spec_effects(spec[0], spec[1], pre)
            return equiv(r.effects, sp.effects, regs, pts, list(s.assumptions()) + list(assume), seed=R.seed, want=want, tries=3000)
        R.guard(title, where, rule, g)

    OW = add(idiv(sub(add(add(pw, pw), W), kw), sw), ONE)
    OH = add(idiv(sub(add(add(ph, ph), H), kh), sh), ONE)

    def cpts(rng):
        a = {W: rng.randint(1, 5), H: rng.randint(1, 4), M: rng.randint(1, 2), N: rng.randint(1, 2), kw: rng.randint(1, 3), kh: rng.randint(1, 3),
             sw: rng.randint(1, 2), sh: rng.randint(1, 2), pw: rng.randint(0, 2), ph: rng.randint(0, 1)}
        return a
    fits = [ge0(sub(add(add(pw, pw), W), kw)), ge0(sub(add(add(ph, ph), H), kh))]

    def im2col(back):
        def b(s):
            A = s.construct(T_, "A", [N, W, H, M])
            B = s.construct(T_, "B", [mul(mul(kw, kh), M), OW, OH, N])
            pa, pb = [s.query(T_, "data_ptr_const", t, nparams=0) for t in (A, B)]
            args = [el(A), W, H, M, N, kw, kh, sw, sh, pw, ph, el(B)]
            return dict(enumerate(args)), ("col2im" if back else "im2col", [pa, pb, W, H, M, N, kw, kh, sw, sh, pw, ph, OW, OH]), [pa, pb]
        return b
    simple("IM2COL", "unfolding windows", im2col(False), cpts, fits)
    simple("COL2IM", "folding windows back", im2col(True), cpts, fits)
    spts = lambda rng: {W: rng.randint(1, 4), H: rng.randint(1, 4), M: rng.randint(1, 3), N: rng.randint(1, 3), rw: rng.randint(1, 3), rh: rng.randint(1, 3),
                        fac: rng.choice((1.0, 0.25)), smp: rng.randint(0, 2), val: 1.25}

    def pair(name, da, db, extra=()):
        def b(s):
            A, B = s.construct(T_, "A", da), s.construct(T_, "B", db)
            pa, pb = [s.query(T_, "data_ptr_const", t, nparams=0) for t in (A, B)]
            spec = {"SMS": ("sms", [pa, pb, N, M, W, H]), "DOWN": ("down", [pa, pb, N, M, W, H, rw, rh, fac]), "UP": ("up", [pa, pb, N, M, W, H, rw, rh, fac])}[name]
            return dict(enumerate([el(A), el(B)] + list(extra))), spec, [pb, pa]
        return b
    simple("SMS", "exchanging samples and maps", pair("SMS", [M, W, H, N], [N, W, H, M]), spts)
    simple("DOWN", "scaling down", pair("DOWN", [N, mul(W, rw), mul(H, rh), M], [N, W, H, M], (rw, rh, fac)), spts)
    simple("UP", "scaling up", pair("UP", [N, W, H, M], [N, mul(W, rw), mul(H, rh), M], (rw, rh, fac)), spts)

    def addb(s):
        t = [s.construct(T_, n, [N, W, H, M]) for n in "ABC"]
        p = [s.query(T_, "data_ptr_const", x, nparams=0) for x in t]
        return dict(enumerate(el(x) for x in t)), ("add", p + [mul(mul(N, M), mul(H, W))]), [p[2], p[0], p[1]]
    simple("ADD", "element-wise sum", addb, spts)

    def setb(one):
        def b(s):
            A = s.construct(T_, "A", [N, W, H, M])
            p = s.query(T_, "data_ptr_const", A, nparams=0)
            E = mul(mul(W, H), M)
            return {0: el(A), 1: smp if one else num(-1), 2: val}, ("fill", [p, mul(E, smp) if one else ZERO, mul(E, add(smp, ONE)) if one else mul(E, N), val]), [p]
        return b
    simple("SETSAMPLE", "setting a sample", setb(True), spts, rule="exactly the elements of the sample get the value")
    simple("SETSAMPLE", "setting all samples", setb(False), spts, rule="exactly the elements of the tensor get the value")

    # mismatched operands are not computed with
    def refuses(name, build, pts, ok, title):
        f, where = at(prog, name)

        def g():
            s = Session(prog)
            args = build(s)
            r = s.run(f, args=args)
            go = or_(*[and_(*x.st.pc) for x in r.exits if x.kind == "return"])
            return values_agree([(ind(go), ind(ok))], pts, assume=s.assumptions()[:0], want=60, tries=2000)
        R.guard(title, where, "the operation runs exactly when its operands fit together", g)

    def adim(s):
        t = [s.construct(T_, n, [sym(n + x) for x in ("S", "W", "H", "M")]) for n in "ABC"]
        return dict(enumerate(el(x) for x in t))

    def apts(rng):
        a = {sym("A" + x): rng.randint(1, 3) for x in ("S", "W", "H", "M")}
        for n in "BC":
            a.update({sym(n + x): a[sym("A" + x)] for x in ("S", "W", "H", "M")})
            if rng.random() < 0.4:
                a[sym(n + rng.choice(("S", "W", "H", "M")))] += 1
        return a
    el_ = lambda n: mul(mul(sym(n + "S"), sym(n + "W")), mul(sym(n + "H"), sym(n + "M")))
    ok = and_(eq0(sub(sym("AS"), sym("BS"))), eq0(sub(sym("BS"), sym("CS"))), eq0(sub(el_("A"), el_("B"))), eq0(sub(el_("B"), el_("C"))))
    refuses("ADD", adim, apts, ok, "operands of the element-wise sum")
    B4 = [sym("B" + x) for x in ("S", "W", "H", "M")]

    def cdim(back):
        def b(s):
            A = s.construct(T_, "A", [N, W, H, M])
            B = s.construct(T_, "B", B4)
            return dict(enumerate([el(A), W, H, M, N, kw, kh, sw, sh, pw, ph, el(B)]))
        return b

    def cpts2(rng):
        while True:
            a = cpts(rng)
            if 2 * a[pw] + a[W] >= a[kw] and 2 * a[ph] + a[H] >= a[kh]:
                break
        d = [a[kw] * a[kh] * a[M], (2 * a[pw] + a[W] - a[kw]) // a[sw] + 1, (2 * a[ph] + a[H] - a[kh]) // a[sh] + 1, a[N]]
        if rng.random() < 0.5:
            d[rng.randint(0, 3)] += 1
        a.update(zip(B4, d))
        return a
    sz = mul(mul(mul(kw, kh), M), mul(mul(OW, OH), N))
    for nm, back, t in (("IM2COL", False, "target of the unfolding"), ("COL2IM", True, "source of the folding")):
        refuses(nm, cdim(back), cpts2, eq0(sub(sz, el_("B"))), t)
