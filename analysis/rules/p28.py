"""The tools that make tensor streams from lists of images and of coloured label images."""
import math
from terms import *
from program import program, NeverReturns
from session import Session
from compare import Verdict, Unknown, Ctx, cnum
import texts
from texts import text, lit, render
from rules import p18, p26
from rules.p18 import Bad, var, T_, DS

MIN = 4
C_ = "Conv::CompressedTensor"
MAGIC = 0xC24CC24CC24CC24C
TOOLS = {"makeTensorStream": False, "makeCompressedTensorStream": True}
ARGV = ["tool", "data.set", "images.txt", "pictures", "labels.txt", "truth/", "out.stream", "false"]
CLASS_COLOURS = (0xFF8000, 0x0000FF, 0x808080, 0x000001)


def level(prog, memo={}):
    """the number a sample of an image becomes"""
    if prog not in memo:
        w = p26.World(prog, w=1, h=1, c=1, depth=8, color=0)
        t, _ = p26.tensor(w.s, "target", ())
        w.s.run(p26.fn(prog, p26.PNG + "LoadFromStream"), args={0: el(w.stream), 1: el(t)})
        p = w.s.query(T_, "data_ptr_const", t, nparams=0)
        v = w.s.st.env.get(el(padd(p, ZERO)))
        if v is None:
            raise Unknown("what a sample of an image becomes")
        x = [z for z in walk(v) if z.op == "sym"]
        if len(set(x)) != 1:
            raise Unknown("what a sample of an image becomes: %s" % show(v)[:80])
        memo[prog] = lambda k: w.s.E.simplify(subst(v, {x[0]: num(k)}), w.s.st)
    return memo[prog]


class Make(p18.Tool):
    """pairs: (image maps, image size, label maps, label size, label pixels as bytes)"""
    def __init__(self, prog, tool, pairs, colours, direct=False, end=True, more=(), argv=None, missing=None, argc=8, extra_images=0):
        p18.Tool.__init__(self, prog)
        s = self.s
        self.tool, self.pairs, self.colours, self.missing = tool, pairs, colours, missing
        H = s.E.hooks
        self.line, self.state = H["std::getline"], {}
        self.argv = list(argv or ARGV)
        self.argv[7] = "true" if direct else "false"
        self.files = {self.argv[2]: ["scene-%d.png" % i for i in range(len(pairs) + extra_images)], self.argv[4]: ["label-%d.png" % i for i in range(len(pairs))]}
        self.files = {k: "\n".join(v) + ("\n" if end else "") for k, v in self.files.items()}
        self.level = level(prog)
        for q, f in ((DS + "::GetClassColors", self.class_colours), (DS + "::GetClasses", lambda o, v, l: num(len(colours))), (T_ + "::LoadFromFile", self.load_image),
                     (T_ + "::Serialize", self.write_tensor), (C_ + "::Compress", self.compress), (C_ + "::Serialize", self.write_compressed), ("std::basic_ostream<char>::write", self.write_raw)):
            H[q] = self.plain(f, q)
        H["std::getline"] = self.getline
        self.old = {}
        for k in ("eof", "good", "fail", "bad", "operator bool", "operator!"):
            H["std::basic_ios<char>::" + k] = self.stream_state(k)
        a = var("arguments")
        for i, x in enumerate(self.argv):
            s.st.env[el(padd(addr(el(a)), num(i)))] = text(x)
        self.args = {0: num(argc), 1: addr(el(a))}
        self.packed = {}

    # files
    def text_file(self, lv, st):
        self.st = st
        nm = self.stream(lv)
        f = texts.Stream(self.s.E, lv, st)
        if nm in self.files and fld(lv, texts.T_REST) not in st.env:
            f.open(text(self.files[nm]) if self.files[nm] else lit(""))
        return nm, f

    def getline(self, E, fn, obj, args, n, st):
        lv = E.lv_or_temp(args[0], st)
        nm, f = self.text_file(lv, st)
        if nm not in self.files:
            raise Bad("reads lines of %s" % nm)
        if nm == self.missing:
            raise Bad("reads a file that cannot be opened")
        return self.line(E, fn, obj, args, n, st)

    def stream_state(self, k):
        def h(E, fn, obj, args, n, st):
            lv = el(obj)
            nm, f = self.text_file(lv, st)
            e = b = F
            if nm in self.files:
                e, b = f.get(texts.T_EOF, F), f.get(texts.T_FAIL, F)
            if nm == self.missing:
                b = T
            return {"eof": e, "fail": b, "bad": F, "good": and_(not_(e), not_(b)), "operator bool": not_(b), "operator!": b}[k]
        return h

    def opens(self, obj, st):
        self.st = st
        return self.stream(el(obj)) != self.missing

    # objects
    def dataset(self, o, v, l):
        self.same("the file the data set is read from", self.stream(l[0]), self.argv[1])
        p = addr(var("data set"))
        self.s.E.dyn[p] = DS
        return p

    def class_colours(self, o, v, l):
        return mk("val", self.colours_in(self.st))

    def colours_in(self, st):
        lv = mk("gvar", "colours")
        st.env[fld(lv, "#size")] = num(len(self.colours))
        for i, x in enumerate(self.colours):
            st.env[el(mk("vdata", lv), num(i))] = num(x)
        return lv

    def load_image(self, o, v, l):
        x = self.s.E.load(l[0], self.st) if l[0] is not None else v[0]
        name = render(texts.as_text(self.s.E, x, self.st))
        while "//" in name:
            name = name.replace("//", "/")
        for i, (im, isize, lm, lsize, pixels) in enumerate(self.pairs):
            for k, folder, maps, size in (("scene", self.argv[3], im, isize), ("label", self.argv[5], lm, lsize)):
                if name == "%s/%s-%d.png" % (folder.rstrip("/"), k, i):
                    E, st = self.s.E, self.st
                    f = [x for x in self.prog.byq[T_ + "::Resize"] if len(x["params"]) >= 4][0]
                    E.call_fn(f, o, [ONE, num(size[0]), num(size[1]), num(maps)] + [NULL, F, F, F][:len(f["params"]) - 4], {"at": (0, 0), "k": "mcall"}, st)
                    p = self.base(el(o))
                    n = size[0] * size[1]
                    for m in range(maps):
                        for j in range(n):
                            st.env[el(padd(p, num(j + n * m)))] = sym("scene%d_%d" % (i, j + n * m)) if k == "scene" else self.level(pixels[j % len(pixels)][m % 3])
                    return
        raise Bad("the image %s is read" % name)

    def contents(self, lv):
        sh = self.shape(lv)
        k = 1
        for x in sh:
            k *= x
        p = self.base(lv)
        return sh, [self.element(p, i, "element %d of a tensor" % i) for i in range(k)]

    def to_output(self, lv):
        self.same("the file that is written", self.stream(lv), self.argv[6])

    def write_tensor(self, o, v, l):
        self.to_output(l[0])
        if len(v) > 1 and v[1] is not F and v[1] is not ZERO:
            raise Bad("numbers are converted to bytes")
        self.events.append(("tensor",) + self.contents(el(o)))

    def compress(self, o, v, l):
        self.packed[o] = self.contents(l[0])

    def write_compressed(self, o, v, l):
        self.to_output(l[0])
        if o not in self.packed:
            raise Unknown("a compressed tensor is written that was not compressed here")
        self.events.append(("compressed",) + self.packed[o])

    def write_raw(self, o, v, l):
        self.to_output(el(o))
        x = self.s.E.load(el(v[0]), self.st)
        self.events.append(("raw", self.number(v[1], "number of bytes"), self.number(x, "number that is written")))
        return o

    def run(self):
        f = [g for g in self.prog.byq["main"] if g["file"].endswith("/" + self.tool + ".cpp")][0]
        try:
            r = self.s.run(f, args=self.args)
        except NeverReturns:
            return False, []
        for e in r.exits:
            if e.kind == "throw":
                raise Bad("an exception ends the tool")
        return is_num(r.ret) and r.ret.a[0] == 0 or r.ret.op in ("undef", "void"), r.effects


def labels(colours, direct, lm, pixels):
    """per pixel: what the label tensor has to contain"""
    out = []
    for p in pixels:
        rgb = p if lm == 3 else (p[0],) * 3
        if direct:
            out.append(tuple(x / 255. for x in rgb))
        elif len(colours) == 1:
            c = [(colours[0] >> k & 255) / 255. for k in (16, 8, 0)]
            d = math.sqrt(sum((x / 255. - y) ** 2 for x, y in zip(rgb, c))) / math.sqrt(3)
            out.append((1 - 2 * d,))
        else:
            out.append(tuple(1. if tuple(c >> k & 255 for k in (16, 8, 0)) == tuple(rgb) else 0. for c in colours))
    return out


def expected(t, kept, direct, compressed, colours):
    """compare what was written with what has to be"""
    ev = t.events
    if compressed:
        if not ev or ev[0] != ("raw", 8, MAGIC):
            raise Bad("the file does not start with its magic number: %s" % (ev[0][:3] if ev else "nothing",))
        ev = ev[1:]
    kind = "compressed" if compressed else "tensor"
    if len(ev) != 2 * len(kept) or [e for e in ev if e[0] != kind]:
        raise Bad("%d tensors are written instead of %d" % (len(ev), 2 * len(kept)))
    for k, i in enumerate(kept):
        im, isize, lm, lsize, pixels = t.pairs[i]
        n = isize[0] * isize[1]
        _, sh, e = ev[2 * k]
        t.same("samples, width, height and maps of image %d" % i, sh, (1, isize[0], isize[1], im))
        for j, x in enumerate(e):
            if x is not sym("scene%d_%d" % (i, j)):
                raise Bad("element %d of image %d is %s" % (j, i, show(x)[:60]))
        _, sh, e = ev[2 * k + 1]
        want = labels(colours, direct, lm, [pixels[j % len(pixels)] for j in range(n)])
        t.same("samples, width, height and maps of label %d" % i, sh, (1, isize[0], isize[1], len(want[0])))
        for m in range(len(want[0])):
            for j in range(n):
                x = e[j + n * m]
                if [z for z in walk(x) if z.op == "sym"]:
                    raise Bad("the label of pixel %d depends on %s" % (j, show(x)[:60]))
                got = cnum(x)(Ctx({}, 1))
                if abs(got - want[j][m]) > 1e-4:
                    raise Bad("the label of pixel %d of colour %s for class %d is %g instead of %g" % (j, pixels[j % len(pixels)], m, got, want[j][m]))


def colours_of(colours, maps):
    """pixels: the colours of the classes, some that differ from one in a channel, and others"""
    if maps == 1:
        return [(v, v, v) for v in (128, 0, 1, 127, 255, 64)]
    out = []
    for c in colours:
        r, g, b = c >> 16 & 255, c >> 8 & 255, c & 255
        out += [(r, g, b), (r ^ 1, g, b), (r, g ^ 1, b), (r, g, b ^ 1), (b, g, r)]
    return out + [(0, 0, 0), (255, 255, 255), (10, 20, 30)]


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["images are read as checked elsewhere, tensors are serialised and compressed as checked elsewhere", "sizes, numbers of classes and colours are enumerated; pixels of images are arbitrary, those of labels are the colours of the classes, their neighbours and others"]

    for tool, packed in TOOLS.items():
        f = [g for g in prog.byq["main"] if g["file"].endswith("/" + tool + ".cpp")][0]
        where = "%s:%d" % (f["file"], f["line"])

        def go(kept, colours, direct, kw, what):
            t = Make(prog, tool, colours=colours, direct=direct, **kw)
            try:
                ok, eff = t.run()
                R.uses(*t.s.fns)
                R.uses(*sorted(t.s.E.inlined))
                if kept is None:
                    if ok and what.get("or grey"):
                        expected(t, [0], direct, packed, colours)
                        p18.inside(t.s, eff)
                        return None
                    if ok:
                        raise Bad("the tool ends as if successful")
                    if [e for e in t.events if e[0] != "raw"]:
                        raise Bad("tensors are written")
                    return None
                if not ok:
                    raise Bad("the tool ends without success")
                expected(t, kept, direct, packed, colours)
                p18.inside(t.s, eff)
            except Bad as e:
                return Verdict("different", None, dict(what, why=e.args[0]))

        def several(cases):
            def g():
                n = 0
                for c in cases:
                    v = go(*c)
                    if v is not None:
                        return v
                    n += 1
                return Verdict("equal", "normal form", points=n)
            return g

        def pair(colours, lm, size, im=3, lsize=None):
            return (im, size, lm, lsize or size, colours_of(colours, lm))
        sizes = [(7, 4), (3, 1), (1, 2)] if not R.thorough else [(7, 4), (3, 1), (1, 2), (1, 1), (5, 5), (9, 3), (2, 11)]
        C4, C2 = CLASS_COLOURS, (0x00FF01, 0x123456)
        for name, colours, direct in (("classes", C4, False), ("two classes", C2, False), ("one class", (0xFF8000,), False), ("colours as labels", C4, True)):
            cases = []
            for lm in (3, 1) if not direct else (3,):
                for im in (3, 1):
                    for size in sizes:
                        cases.append(([0], colours, direct, {"pairs": [pair(colours, lm, size, im)]}, {"label maps": lm, "image maps": im, "width, height": size}))
            R.guard("%s, %s" % (tool, name), where, "for each pair the image, then the label tensor of its size that has each pixel's class according to the data set's colours", several(cases))
        two, three = [pair(C2, 3, (2, 2)), pair(C2, 1, (3, 1))], [pair(C2, 3, (2, 2)), pair(C2, 3, (2, 1), lsize=(1, 2)), pair(C2, 1, (1, 3), lsize=(1, 3)), pair(C2, 1, (2, 2), lsize=(2, 1))]
        cases = [(list(range(2)), C2, False, {"pairs": two, "end": end, "argv": argv}, {"pairs": 2, "last line ends": end}) for end in (True, False) for argv in (None, ARGV[:3] + ["pictures/", ARGV[4], "some/truth"] + ARGV[6:])]
        cases += [([0, 2], C2, False, {"pairs": three, "end": end}, {"pairs": 4, "of different size": [1, 3]}) for end in (True, False)]
        cases += [([0, 1], C2, False, {"pairs": two, "extra_images": 1, "end": end}, {"pairs": 2, "images without label": 1}) for end in (True, False)]
        cases += [([], C2, False, {"pairs": []}, {"pairs": 0})]
        R.guard("%s, lists" % tool, where, "pairs are written in the order of the lists; those whose sizes differ are left out", several(cases))
        cases = [(None, C2, False, {"pairs": two, "missing": x}, {"cannot be opened": x}) for x in (ARGV[1], ARGV[2], ARGV[4], ARGV[6])]
        cases += [(None, C2, False, {"pairs": two, "argc": k}, {"arguments": k}) for k in (1, 4, 7)]
        cases += [(None, c, d, {"pairs": [pair(c, lm, (2, 2))]}, {"label maps": lm, "classes": len(c), "colours as labels": d, "or grey": d and lm == 1}) for c, d, lms in ((C2, False, (2, 4)), ((0xFF8000,), False, (2, 4)), (C2, True, (1, 2))) for lm in lms]
        R.guard("%s, refused" % tool, where, "missing arguments, files that cannot be opened and labels that are not colours end the tool without tensors", several(cases))
