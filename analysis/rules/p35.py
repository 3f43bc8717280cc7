"""The tools that copy tensor streams: which tensors are read, and which are written where."""
from terms import *
from program import program, NeverReturns
from compare import Verdict, Unknown
from texts import text
from rules import p18, p28
from rules.p18 import Bad, var, T_

MIN = 2
C_, FS = "Conv::CompressedTensor", "std::basic_ofstream<char>::basic_ofstream"
SHAPES = [(1, 3, 2, 2), (2, 1, 1, 1), (1, 2, 2, 1), (1, 1, 1, 1), (1, 3, 2, 2)]


class Copy(p28.Make):
    def __init__(self, prog, tool, argv, count, missing=None, argc=None):
        p18.Tool.__init__(self, prog)
        s = self.s
        self.tool, self.argv, self.count, self.missing, self.packed, self.at, self.ended, self.have = tool, argv, count, missing, {}, {}, {}, {}
        H = s.E.hooks
        for q in list(H):
            if q.startswith((T_ + "::", "Conv::TensorStreamDataset", "Conv::Dataset")) and q != "Conv::Tensor::Resize":
                del H[q]
        B = "std::basic_istream<char>::"
        for q, f in ((T_ + "::Deserialize", self.read_tensor), (T_ + "::Serialize", self.write_tensor), (C_ + "::Compress", self.compress), (C_ + "::Serialize", self.write_compressed), (C_ + "::Decompress", self.unpack), (C_ + "::compressed_length", self.length),
                     ("std::basic_ostream<char>::write", self.write_raw), (B + "peek", self.peek), (B + "seekg", self.seek), ("std::basic_ios<char>::clear", self.clear)):
            H[q] = self.plain(f, q)
        for k in ("eof", "good", "fail", "bad", "operator bool", "operator!"):
            H["std::basic_ios<char>::" + k] = self.state(k)
        a = var("arguments")
        for i, x in enumerate(argv):
            s.st.env[el(padd(addr(el(a)), num(i)))] = text(x)
        for i in range(len(argv), 4):
            s.st.env[el(padd(addr(el(a)), num(i)))] = NULL
        self.args = {0: num(len(argv)), 1: addr(el(a))}

    def stream(self, lv):
        x = self.s.E.load(lv, self.st)
        if x.op == "obj" and len(x.a) > 2 and x.a[2] is NULL:
            raise Bad("a file without a name is opened")
        return p18.Tool.stream(self, lv)

    def key(self, lv):
        return show(lv)

    def state(self, k):
        def h(E, fn, obj, args, n, st):
            self.st = st
            lv = el(obj)
            b = T if self.stream(lv) == self.missing else F
            e = T if self.ended.get(self.key(lv)) else F
            return {"eof": e, "fail": b, "bad": F, "good": and_(not_(e), not_(b)), "operator bool": not_(b), "operator!": b}[k]
        return h

    def peek(self, o, v, l):
        k = self.key(el(o))
        if self.at.get(k, 0) >= self.count:
            self.ended[k] = True
        if self.stream(el(o)) == self.missing:
            return num(-1)
        return num(-1) if self.ended.get(k) else ONE

    def clear(self, o, v, l):
        self.ended[self.key(el(o))] = False

    def seek(self, o, v, l):
        k = self.key(el(o))
        if v[0] is not ZERO:
            raise Unknown("position %s" % show(v[0])[:60])
        if len(v) > 1 and [y for y in walk(v[1]) if y.op == "gvar" and str(y.a[0]).split("::")[-1] != "beg"]:
            raise Unknown("position from %s" % show(v[1])[:60])
        if not self.ended.get(k):
            self.at[k] = 0
        return o

    def opened_for_writing(self):
        return [e for e in self.s.E.effects if e.kind == "call" and e.d.get("q") == FS and e.d["args"] and self.name_of(e.d["args"][0]) == self.argv[1]]

    def name_of(self, x):
        import texts
        try:
            return texts.render(texts.as_text(self.s.E, x, self.st))
        except Exception:
            return None

    def read_tensor(self, o, v, l):
        self.same("the file that is read", self.stream(l[0]), self.argv[1])
        if self.missing == self.argv[1]:
            raise Bad("tensors are read from a file that cannot be opened")
        if self.opened_for_writing():
            raise Bad("tensors are read from a file after it was overwritten")
        k = self.key(l[0])
        i = self.at.get(k, 0)
        if i >= self.count or self.ended.get(k):
            raise Bad("tensors are read after the end of the file")
        self.at[k] = i + 1
        if len(v) > 1 and v[1] is not F:
            head = True
        else:
            head = False
        E, st = self.s.E, self.st
        sh = SHAPES[i]
        f = [x for x in self.prog.byq[T_ + "::Resize"] if len(x["params"]) >= 4][0]
        E.call_fn(f, o, [num(x) for x in sh] + [NULL, F, F, F][:len(f["params"]) - 4], {"at": (0, 0), "k": "mcall"}, st)
        if not head:
            p = self.base(el(o))
            for j in range(sh[0] * sh[1] * sh[2] * sh[3]):
                st.env[el(padd(p, num(j)))] = sym("tensor%d_%d" % (i, j))

    def length(self, o, v, l):
        """some tensors become smaller, some larger"""
        sh, e = self.obj_packed(o)
        return num(len(e) * 4 + (9 if sh[1] == 2 else -1))

    def obj_packed(self, o):
        if o not in self.packed:
            raise Unknown("length of a tensor that was not compressed here")
        return self.packed[o]

    def to_output(self, lv):
        self.same("the file that is written", self.stream(lv), self.argv[2] if self.tool == "compressTensorStream" else self.argv[1])

    def unpack(self, o, v, l):
        if o not in self.packed:
            raise Unknown("a compressed tensor is unpacked that was not compressed here")
        sh, e = self.packed[o]
        E, st, t = self.s.E, self.st, addr(l[0])
        f = [x for x in self.prog.byq[T_ + "::Resize"] if len(x["params"]) >= 4][0]
        E.call_fn(f, t, [num(x) for x in sh] + [NULL, F, F, F][:len(f["params"]) - 4], {"at": (0, 0), "k": "mcall"}, st)
        p = self.base(l[0])
        for j, x in enumerate(e):
            st.env[el(padd(p, num(j)))] = x


def written(t, kept, compressed):
    ev = t.events
    if compressed:
        if not ev or ev[0] != ("raw", 8, p28.MAGIC):
            raise Bad("the file does not start with its magic number")
        ev = ev[1:]
    kind = "compressed" if compressed else "tensor"
    if len(ev) != kept or [e for e in ev if e[0] != kind]:
        raise Bad("%d tensors are written instead of %d" % (len(ev), kept))
    for i, (_, sh, e) in enumerate(ev):
        t.same("samples, width, height and maps of tensor %d" % i, sh, SHAPES[i])
        for j, x in enumerate(e):
            if x is not sym("tensor%d_%d" % (i, j)):
                raise Bad("element %d of tensor %d is %s" % (j, i, show(x)[:60]))


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["reading, writing and compressing a tensor are checked elsewhere", "streams of one to %d tensors of unknown contents" % len(SHAPES)]

    def go(tool, argv, count, what, missing=None, kept=None, untouched=False):
        t = Copy(prog, tool, argv, count, missing)
        try:
            ok, eff = t.run()
            R.uses(*t.s.fns)
            R.uses(*sorted(t.s.E.inlined))
            if kept is None:
                if ok and not untouched:
                    raise Bad("the tool ends as if successful")
                if [e for e in t.events if e[0] != "raw"]:
                    raise Bad("tensors are written")
                if tool == "tensorStreamTool" and [e for e in eff if e.kind == "call" and e.d.get("q") == FS]:
                    raise Bad("the file is overwritten")
                return None
            if not ok:
                raise Bad("the tool ends without success")
            written(t, kept, tool == "compressTensorStream")
            p18.inside(t.s, eff)
        except Bad as e:
            return Verdict("different", None, dict(what, why=e.args[0]))

    def several(cases):
        def g():
            for a, k in cases:
                v = go(*a, **k)
                if v is not None:
                    return v
            return Verdict("equal", "normal form", points=len(cases))
        return g
    for tool in ("compressTensorStream", "tensorStreamTool"):
        f = [g for g in prog.byq["main"] if g["file"].endswith("/" + tool + ".cpp")][0]
        where = "%s:%d" % (f["file"], f["line"])
        if tool == "compressTensorStream":
            A = ["tool", "some.Tensor", "some.CTensor"]
            R.guard("compressTensorStream", where, "the magic number, then every tensor of the stream, compressed, in order", several([((tool, A, n, {"tensors": n}), {"kept": n}) for n in range(1, len(SHAPES) + 1)]))
            bad = [((tool, A, 2, {"cannot be opened": x}), {"missing": x}) for x in A[1:]] + [((tool, A[:k], 2, {"arguments": k}), {}) for k in (1, 2)]
        else:
            A = ["tool", "some.Tensor"]
            cases = [((tool, A + [str(k)], n, {"tensors": n, "to keep": k}), {"kept": k} if k < n else {"untouched": True}) for n in range(1, len(SHAPES) + 1) for k in range(1, len(SHAPES) + 2)]
            R.guard("tensorStreamTool", where, "the first tensors of a stream that has more are kept, in order; a stream that has no more is left alone", several(cases))
            bad = [((tool, A + ["2"], 3, {"cannot be opened": A[1]}), {"missing": A[1]})] + [((tool, (A + ["2"])[:k], 2, {"arguments": k}), {}) for k in (1, 2)]
        R.guard("%s, refused" % tool, where, "missing arguments and files that cannot be opened end the tool without a tensor", several(bad))
