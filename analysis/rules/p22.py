"""The picture a data set makes of a net's output."""
from terms import *
from session import Session
from program import program
from compare import equiv, Verdict, Unknown
from layercases import spec_effects
from rules import p21, p31

MIN = 4
T_ = "Conv::Tensor"
BASE = "Conv::Dataset"


def colors_of(s, cls, d):
    x = s.fork()
    r = x.run(x.method(cls, "GetClassColors"), this=d).ret
    if r.op != "val":
        raise Unknown("colours of the classes: %s" % show(r)[:80])
    return addr(el(mk("vdata", s.E.vec(r.a[0], x.st)), ZERO))


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["the picture is a tensor of the size of the output with three maps", "one output map per class", "colours have 24 bits; sizes are exact integers"]
    want = 80 if R.thorough else 30
    N, W, H = [sym(x) for x in "NWH"]
    f = [g for g in prog.byq[BASE + "::Colorize"] if g.get("body")][0]
    where = "%s:%d" % (f["file"], f["line"])

    def case(cls, c, style):
        def g():
            if cls == p21.D:
                s, d, X = p21.dataset(prog, c)
            else:
                p31.C, old = c, p31.C
                try:
                    s, d, X = p31.dataset(prog, (2, 2))
                finally:
                    p31.C = old
            colors = [sym("color%d" % i) for i in range(c)]
            o = s.construct(T_, "output", [N, W, H, num(c)])
            t = s.construct(T_, "picture", [N, W, H, num(3)])
            po, pt = [s.query(T_, "data_ptr_const", x, nparams=0) for x in (o, t)]
            table = colors_of(s, cls, d)
            pre = s.st.clone()
            r = s.run(s.method(cls, "Colorize", 2), this=d, args={0: el(o), 1: el(t)}, cls=cls)
            R.uses(*s.fns)
            R.uses(*sorted(s.E.inlined))
            sp = spec_effects("colorized", [po, pt, N, W, H, num(c), table], pre)

            def pts(rng):
                v = {p21.Streams.count(q): 2 * rng.randint(0, 2) for q in p21.Streams.ends}
                v.update({N: rng.randint(1, 2), W: rng.randint(1, 3), H: rng.randint(1, 3)})
                for q in colors:
                    v[q] = rng.choice((0, 0xffffff, 0x0000ff, 0x00ff00, 0xff0000, rng.randint(0, 0xffffff)))
                return v
            regs = [pt]
            return equiv(r.effects, sp.effects, regs, pts, s.assumptions(), seed=R.seed, want=want, tries=2000, styles=style, intrange={table: 1 << 24})
        return g
    for cls in (p21.D, p31.D):
        for c in (1, 2, 3, 5):
            for nm, style in (("any values", (None,)), ("ties", ("ties",)), ("negative values", ("negative",))):
                R.guard("%s, %d classes, %s" % (cls.split("::")[1], c, nm), where, "every pixel has the colour of the class of the largest output; the colour of a single class scaled by the output", case(cls, c, style))
