"""Images: pixels of PNG and JPEG files become tensors, tensors become pixels; calls to the image libraries are abstract."""
from terms import *
from program import program, NeverReturns
from session import Session
from compare import Verdict, Unknown, Ctx, cnum
import texts
from texts import text, lit, word, render

MIN = 4
T_ = "Conv::Tensor"
PNG, JPG = "Conv::PNGUtil::", "Conv::JPGUtil::"
SIZES = [(1, 1), (3, 2), (2, 5), (1, 4), (4, 1)]
RGB = 2
NAME = text(lit("some picture"))


class Bad(Exception):
    pass


class World:
    """the image libraries and the files they work on"""
    def __init__(self, prog, **kw):
        s = self.s = Session(prog, depth=40)
        texts.prepare(s)
        s.E.concrete, s.E.narrow = True, True
        self.kw = dict({"w": 1, "h": 1, "c": 3, "depth": 8, "color": 2, "signature": True, "handle": True, "info": True, "file": True}, **kw)
        self.at, self.skip, self.events, self.open, self.image, self.line, self.sizes = 0, 0, [], {}, {}, 0, {}
        H = s.E.hooks
        for k in dir(self):
            if k.startswith("png_") or k.startswith("jpeg_"):
                H[k] = self.plain(getattr(self, k), k)
        H["fopen"] = H["fopen64"] = self.plain(self.fopen, "fopen")
        H["fclose"] = self.plain(self.fclose, "fclose")
        H["alloc_sarray"] = self.plain(self.alloc_sarray, "alloc_sarray")
        H["std::basic_istream<char>::read"] = self.plain(self.read, "read")
        H["std::basic_istream<char>::seekg"] = self.plain(self.seek, "seekg")
        H["std::basic_istream<char>::tellg"] = self.plain(lambda v, n, st, o: num(self.at), "tellg")
        for k, v in (("good", T), ("fail", F), ("bad", F), ("eof", F), ("operator bool", T), ("operator!", F)):
            H["std::basic_ios<char>::" + k] = lambda E, fn, obj, args, n, st, v=v: v
        self.path = mk("gvar", "file name")
        s.st.env[self.path] = NAME
        self.stream = addr(mk("gvar", "stream"))

    def plain(self, f, name):
        def h(E, fn, obj, args, n, st):
            if E.loops or [c for c in st.pc if c is not T]:
                raise Unknown("%s is called in a place that is not unrolled" % name)
            v = []
            self.st = st
            for x in args:
                y = E.arg(x, st) if isinstance(x, dict) else x
                while y.op == "val":
                    y = E.load(y.a[0], st)
                v.append(y)
            return f(v, n, st, obj)
        return h

    def number(self, v, what):
        if not is_num(v):
            raise Unknown("%s: %s" % (what, show(v)[:80]))
        return int(v.a[0])

    # -- files -------------------------------------------------------------
    def fopen(self, v, n, st, o):
        if self.kw["file"]:
            self.open["file"] = self.open.get("file", 0) + 1
            self.mode = render(texts.as_text(self.s.E, v[1], st))
            self.named = texts.as_text(self.s.E, v[0], st)
            return addr(mk("gvar", "FILE"))
        return NULL

    def fclose(self, v, n, st, o):
        if v[0] is not addr(mk("gvar", "FILE")):
            raise Bad("a file that was not opened is closed")
        self.close("file")
        if "jpeg image" in self.open and self.open["jpeg image"] > 0 and "finish" not in self.events:
            raise Bad("the file is closed before the image is complete")
        return ZERO

    def close(self, what):
        self.open[what] = self.open.get(what, 0) - 1
        if self.open[what] < 0:
            raise Bad("%s is released twice" % what)

    def read(self, v, n, st, o):
        k = self.number(v[1], "number of bytes")
        for i in range(k):
            self.s.E.store(el(padd(v[0], num(i))), sym("sig%d" % (self.at + i)), st, n)
        self.at += k
        return o

    def seek(self, v, n, st, o):
        if len(v) > 1 and not (is_num(v[1]) and v[1].a[0] == 0):
            raise Unknown("seeks from another place")
        p = v[0]
        if p.op == "obj" and "fpos" in p.a[0]:
            p = p.a[-1]
        self.at = self.number(p, "position")
        return o

    # -- PNG ---------------------------------------------------------------
    def handle(self, what):
        if not self.kw["handle"]:
            return NULL
        self.open["png structure"] = self.open.get("png structure", 0) + 1
        self.kind = what
        return addr(mk("gvar", "png structure"))

    def png_create_read_struct(self, v, n, st, o):
        return self.handle("read")

    def png_create_write_struct(self, v, n, st, o):
        return self.handle("write")

    def png_create_info_struct(self, v, n, st, o):
        self.mine(v)
        if not self.kw["info"]:
            return NULL
        self.open["png info"] = self.open.get("png info", 0) + 1
        return addr(mk("gvar", "png info"))

    def mine(self, v, info=False):
        if v[0] is not addr(mk("gvar", "png structure")):
            raise Bad("libpng is called with something that is not its structure") if settled(v[0]) else Unknown("png structure %s" % show(v[0])[:60])
        if info and v[1] is not addr(mk("gvar", "png info")):
            raise Bad("libpng is called with something that is not its information") if settled(v[1]) else Unknown("png info %s" % show(v[1])[:60])
        if not self.open.get("png structure"):
            raise Bad("libpng is called after its structure was destroyed")

    def destroy(self, v, kind, st):
        if self.kind != kind:
            raise Bad("the structure is destroyed the wrong way")
        E = self.s.E
        h = E.load(el(v[0]), st)
        self.mine([h])
        self.close("png structure")
        if len(v) > 1 and v[1] is not NULL and not (is_num(v[1]) and v[1].a[0] == 0):
            i = E.load(el(v[1]), st)
            if i is addr(mk("gvar", "png info")):
                self.close("png info")
        return mk("void")

    def png_destroy_read_struct(self, v, n, st, o):
        return self.destroy(v, "read", st)

    def png_destroy_write_struct(self, v, n, st, o):
        return self.destroy(v, "write", st)

    def png_destroy_info_struct(self, v, n, st, o):
        self.mine(v)
        self.close("png info")
        return mk("void")

    def png_sig_cmp(self, v, n, st, o):
        a, k = self.number(v[1], "start"), self.number(v[2], "number of bytes")
        for i in range(k):
            x = self.s.E.load(el(padd(v[0], num(a + i))), st)
            if x is not sym("sig%d" % (a + i)):
                raise Bad("byte %d of the signature is not that of the file" % (a + i)) if settled(x) else Unknown("signature %s" % show(x)[:60])
        if k < 8 and k + a < 4:
            raise Bad("only %d bytes of the signature are compared" % k)
        return ZERO if self.kw["signature"] else ONE

    def png_set_sig_bytes(self, v, n, st, o):
        self.mine(v)
        self.skip = self.number(v[1], "bytes")
        return mk("void")

    def png_set_read_fn(self, v, n, st, o):
        self.mine(v)
        self.io(v, "read")
        return mk("void")

    def png_set_write_fn(self, v, n, st, o):
        self.mine(v)
        self.io(v, "write")
        return mk("void")

    def io(self, v, what):
        """the function libpng calls transfers exactly the bytes it is asked for"""
        E = self.s.E
        if v[1] is not self.stream or v[2].op != "fnptr":
            raise Unknown("function to %s with" % what)
        g = [f for f in E.prog.byq.get(v[2].a[0], []) if f.get("body") is not None]
        if len(g) != 1:
            raise Unknown("function to %s with" % what)
        s = Session(E.prog, depth=20)
        done = []

        def move(E, fn, obj, args, n, st):
            done.append((fn["name"], obj, E.ev(args[0], st), E.ev(args[1], st), bool(E.loops) or bool([c for c in st.pc if c is not T])))
            return obj
        s.E.hooks["std::basic_istream<char>::read"] = s.E.hooks["std::basic_ostream<char>::write"] = move
        s.E.hooks["png_get_io_ptr"] = lambda E, fn, obj, args, n, st: self.stream
        data, length = addr(mk("gvar", "data")), sym("length")
        s.run(g[0], args={0: v[0], 1: data, 2: length})
        if any(x[4] for x in done):
            raise Unknown("how bytes are moved")
        if [x[:4] for x in done] != [(what, self.stream, data, length)]:
            if all(settled(y) for x in done for y in x[1:4]):
                raise Bad("the function handed to libpng does not %s the bytes it is asked for" % what)
            raise Unknown("how bytes are moved")
        self.events.append("io")

    def png_get_io_ptr(self, v, n, st, o):
        return self.stream

    def png_read_info(self, v, n, st, o):
        self.mine(v, True)
        if "io" not in self.events:
            raise Bad("libpng is not told where to read from")
        if self.at != self.skip:
            raise Bad("libpng starts to read at byte %d" % self.at)
        self.events.append("info")
        return mk("void")

    def got(self, v, k):
        self.mine(v, True)
        if "info" not in self.events:
            raise Bad("%s is asked for before the header is read" % k)
        return num(self.kw[k])

    def png_get_image_width(self, v, n, st, o):
        return self.got(v, "w")

    def png_get_image_height(self, v, n, st, o):
        return self.got(v, "h")

    def png_get_bit_depth(self, v, n, st, o):
        return self.got(v, "depth")

    def png_get_channels(self, v, n, st, o):
        return self.got(v, "c")

    def png_get_color_type(self, v, n, st, o):
        return self.got(v, "color")

    def png_get_rowbytes(self, v, n, st, o):
        self.got(v, "w")
        return num(self.kw["w"] * self.kw["c"] * self.kw["depth"] // 8)

    def png_read_image(self, v, n, st, o):
        self.mine(v)
        if "info" not in self.events:
            raise Bad("pixels are read before the header")
        for r in range(self.kw["h"]):
            self.fill(self.s.E.load(el(padd(v[1], num(r))), st), r, n, st)
        self.events.append("pixels")
        return mk("void")

    def png_read_row(self, v, n, st, o):
        self.mine(v)
        self.fill(v[1], self.line, n, st)
        self.line += 1
        self.events.append("pixels")
        return mk("void")

    def png_read_end(self, v, n, st, o):
        self.mine(v)
        return mk("void")

    def room(self, p, k):
        """a row of k samples has to fit into the memory behind p"""
        b, i = ptr_parts(p)
        if not is_num(i) or b.op not in ("alloc", "vdata"):
            raise Unknown("memory of a row: %s" % show(p)[:80])
        size = self.size(b)
        if size is not None and not 0 <= int(i.a[0]) <= size - k:
            raise Bad("a row of %d samples starts at %d of %d" % (k, int(i.a[0]), size))

    def size(self, b):
        if b.op == "vdata":
            return self.number(self.s.E.load(fld(b.a[0], "#size"), self.s.st if self.st is None else self.st), "size of a row")
        if b.a[0] in self.sizes:
            return self.sizes[b.a[0]]
        for e in self.s.E.effects:
            if e.kind == "new" and e.d.get("ptr") is b and e.d.get("n") is not None:
                return self.number(e.d["n"], "size of a buffer")
        return None
    st = None

    def fill(self, row, r, n, st):
        k = self.kw["w"] * self.kw["c"]
        self.room(row, k)
        for i in range(k):
            self.s.E.store(el(padd(row, num(i))), sym("p_%d_%d" % (r, i)), st, n)

    def png_set_IHDR(self, v, n, st, o):
        self.mine(v, True)
        self.header = [self.number(x, "header") for x in v[2:7]]
        self.events.append("header")
        return mk("void")

    def png_write_info(self, v, n, st, o):
        self.mine(v, True)
        if "header" not in self.events:
            raise Bad("the header is written before it is set")
        if "io" not in self.events:
            raise Bad("libpng is not told where to write to")
        self.events.append("info")
        return mk("void")

    def take(self, row, st):
        if "info" not in self.events:
            raise Bad("pixels are written before the header")
        k = 3 * self.kw["w"]
        self.room(row, k)
        for i in range(k):
            x = st.env.get(el(padd(row, num(i))))
            if x is None or contains(x, lambda y: y.op == "undef"):
                raise Bad("sample %d of row %d is never set" % (i, self.line))
            self.image[(self.line, i)] = x
        self.line += 1

    def png_write_image(self, v, n, st, o):
        self.mine(v)
        for r in range(self.kw["h"]):
            self.take(self.s.E.load(el(padd(v[1], num(r))), st), st)
        self.events.append("pixels")
        return mk("void")

    def png_write_row(self, v, n, st, o):
        self.mine(v)
        self.take(v[1], st)
        if self.line == self.kw["h"]:
            self.events.append("pixels")
        return mk("void")

    def png_write_end(self, v, n, st, o):
        self.mine(v)
        if "pixels" not in self.events:
            raise Bad("the image ends before its pixels are written")
        self.events.append("finish")
        return mk("void")

    # -- JPEG --------------------------------------------------------------
    def field(self, v, k, st):
        return fld(el(v[0]), k)

    def known(self, v, k, st, what=None):
        return self.number(self.s.E.load(self.field(v, k, st), st), what or k)

    def jpeg_std_error(self, v, n, st, o):
        return v[0]

    def create(self, v, n, st, kind):
        e = self.s.E.load(self.field(v, "err", st), st)
        if e.op in ("undef", "undefobj"):
            raise Bad("libjpeg has no error handler")
        m = addr(mk("gvar", "jpeg memory"))
        self.s.E.store(self.field(v, "mem", st), m, st, n)
        self.s.E.store(fld(el(m), "alloc_sarray"), mk("fnptr", "alloc_sarray"), st, n)
        self.open["jpeg image"] = self.open.get("jpeg image", 0) + 1
        self.cinfo, self.kind = v[0], kind
        return mk("void")

    def jpeg_CreateDecompress(self, v, n, st, o):
        return self.create(v, n, st, "read")

    def jpeg_CreateCompress(self, v, n, st, o):
        return self.create(v, n, st, "write")

    def mine_too(self, v, kind=None):
        if v[0] is not self.cinfo or not self.open.get("jpeg image"):
            raise Unknown("image %s" % show(v[0])[:60])

    def jpeg_stdio_src(self, v, n, st, o):
        self.mine_too(v)
        if v[1] is not addr(mk("gvar", "FILE")) or not self.open.get("file"):
            raise Bad("libjpeg reads from a file that is not open")
        if self.mode.strip("'\"") not in ("rb", "r"):
            raise Bad("the file is opened with %s" % self.mode)
        self.events.append("io")
        return mk("void")

    def jpeg_stdio_dest(self, v, n, st, o):
        self.mine_too(v)
        if v[1] is not addr(mk("gvar", "FILE")) or not self.open.get("file"):
            raise Bad("libjpeg writes to a file that is not open")
        if self.mode.strip("'\"") not in ("wb", "w"):
            raise Bad("the file is opened with %s" % self.mode)
        self.events.append("io")
        return mk("void")

    def jpeg_read_header(self, v, n, st, o):
        self.mine_too(v)
        if "io" not in self.events:
            raise Bad("libjpeg is not told where to read from")
        self.s.E.store(self.field(v, "image_width", st), num(self.kw["w"]), st, n)
        self.s.E.store(self.field(v, "image_height", st), num(self.kw["h"]), st, n)
        self.s.E.store(self.field(v, "num_components", st), num(self.kw["c"]), st, n)
        self.events.append("info")
        return ONE

    def jpeg_start_decompress(self, v, n, st, o):
        self.mine_too(v)
        if "info" not in self.events:
            raise Bad("the image is decompressed before its header is read")
        for k, x in (("output_width", "w"), ("output_height", "h"), ("output_components", "c"), ("out_color_components", "c")):
            self.s.E.store(self.field(v, k, st), num(self.kw[x]), st, n)
        self.s.E.store(self.field(v, "output_scanline", st), ZERO, st, n)
        self.events.append("start")
        return ONE

    def alloc_sarray(self, v, n, st, o):
        k, rows = self.number(v[2], "length of a row"), self.number(v[3], "rows")
        p = mk("alloc", self.s.E.nid(), "rows")
        for r in range(rows):
            b = mk("alloc", self.s.E.nid(), "row")
            self.sizes[b.a[0]] = k
            self.s.E.store(el(padd(p, num(r))), b, st, n)
        return p

    def jpeg_read_scanlines(self, v, n, st, o):
        self.mine_too(v)
        at = self.known(v, "output_scanline", st)
        if "start" not in self.events or at >= self.kw["h"]:
            raise Bad("more lines are read than there are")
        k = min(self.number(v[2], "lines"), self.kw["h"] - at)
        for r in range(k):
            self.fill(self.s.E.load(el(padd(v[1], num(r))), st), at + r, n, st)
        self.s.E.store(self.field(v, "output_scanline", st), num(at + k), st, n)
        return num(k)

    def jpeg_set_defaults(self, v, n, st, o):
        self.mine_too(v)
        got = [self.known(v, k, st) for k in ("input_components", "in_color_space")]
        if got != [3, RGB]:
            raise Bad("the image is announced with %d components of kind %d" % tuple(got))
        self.events.append("header")
        return mk("void")

    def jpeg_set_quality(self, v, n, st, o):
        return mk("void")

    def jpeg_start_compress(self, v, n, st, o):
        self.mine_too(v)
        if "io" not in self.events or "header" not in self.events:
            raise Bad("the image is compressed before it is described")
        self.header = [self.known(v, k, st) for k in ("image_width", "image_height")]
        self.s.E.store(self.field(v, "next_scanline", st), ZERO, st, n)
        self.events.append("info")
        return mk("void")

    def jpeg_write_scanlines(self, v, n, st, o):
        self.mine_too(v)
        at = self.known(v, "next_scanline", st)
        k = self.number(v[2], "lines")
        if at + k > self.kw["h"]:
            raise Bad("more lines are written than the image has")
        self.line = at
        for r in range(k):
            self.take(self.s.E.load(el(padd(v[1], num(r))), st), st)
        self.s.E.store(self.field(v, "next_scanline", st), num(at + k), st, n)
        return num(k)

    def done(self, v, n, st):
        self.mine_too(v)
        if self.known(v, "output_scanline" if self.kind == "read" else "next_scanline", st) < self.kw["h"]:
            raise Bad("the image is finished before its last line")
        self.events.append("finish")
        return ONE

    def jpeg_finish_decompress(self, v, n, st, o):
        return self.done(v, n, st)

    def jpeg_finish_compress(self, v, n, st, o):
        return self.done(v, n, st)

    def released(self, v):
        self.mine_too(v)
        self.close("jpeg image")
        return mk("void")

    def jpeg_destroy_decompress(self, v, n, st, o):
        return self.released(v)

    def jpeg_destroy_compress(self, v, n, st, o):
        return self.released(v)

    def jpeg_destroy(self, v, n, st, o):
        return self.released(v)

    # -- what is left ------------------------------------------------------
    def leaks(self, r):
        for k, x in sorted(self.open.items()):
            if x and k != "png info":
                raise Bad("%s is never released" % {"file": "the file", "jpeg image": "libjpeg's state", "png structure": "libpng's structure"}[k])
        if self.open.get("png info"):
            raise Bad("libpng's information is never released")
        new = [e.d["ptr"] for e in r.effects if e.kind == "new" and e.where().split(":")[0] and "Tensor.cpp" not in e.where()]
        gone = [e.d.get("ptr") for e in r.effects if e.kind == "delete"]
        for p in new:
            if gone.count(p) == 0:
                raise Bad("a buffer of the conversion is never released")
            if gone.count(p) > 1:
                raise Bad("a buffer of the conversion is released twice")


def settled(t):
    return not contains(t, lambda x: x.op in ("unk", "ld", "phi", "call", "ite", "undef", "alloc")) or t.op == "null"


def shape(s, t):
    out = []
    for q in ("samples", "width", "height", "maps"):
        v = s.query(T_, q, t)
        if not is_num(v):
            raise Unknown("%s: %s" % (q, show(v)[:60]))
        out.append(int(v.a[0]))
    return tuple(out)


def fn(prog, q):
    return prog.byq[q][0]


def tensor(s, name, dims):
    t = s.construct(T_, name, [num(x) for x in dims] if dims else [])
    p = s.query(T_, "data_ptr_const", t, nparams=0)
    k = 1
    for x in dims or (0,):
        k *= x
    for i in range(k):
        s.st.env[el(padd(p, num(i)))] = sym("d%d" % i)
    return t, p


def levels(depth):
    return list(range(256)) if depth == 8 else [0, 1, 2, 127, 128, 255, 256, 257, 511, 0x1234, 0x3412, 32767, 32768, 40000, 65279, 65280, 65534, 65535]


def conversion(term, pixel, depth):
    """the number a sample becomes: its share of the largest possible sample"""
    for v in levels(depth):
        raw = v if depth == 8 else (v >> 8) | ((v & 255) << 8)      # files are big endian, the machine is not
        got = cnum(term)(Ctx({pixel: raw}, 1))
        want = v / (255. if depth == 8 else 65535.)
        if abs(got - want) > 1e-5 * max(want, 1e-3):
            raise Bad("a sample of %d of %d becomes %g" % (v, 2 ** depth - 1, got))


def outcome(w, f, args):
    """run a conversion; -> (result, what it returns)"""
    r = w.s.run(f, args=args)
    for e in r.exits:
        if e.kind == "throw":
            raise Bad("the conversion throws")
    if r.ret is not T and r.ret is not F:
        raise Unknown("result %s" % show(r.ret)[:60])
    return r, r.ret is T


def loaded(prog, kind, R):
    """a file of every kind becomes a tensor with its pixels"""
    done = 0
    f = fn(prog, PNG + "LoadFromStream" if kind == "png" else JPG + "LoadFromFile")
    for depth in (8, 16) if kind == "png" else (8,):
        for c in (1, 2, 3, 4) if kind == "png" else (1, 3, 4):
            for w_, h_ in SIZES if depth == 8 and c in (1, 3) else SIZES[1:3]:
                for before in ((), (2, 1, h_, w_)) if c == 3 else ((),):
                    w = World(prog, w=w_, h=h_, c=c, depth=depth, color={1: 0, 2: 4, 3: 2, 4: 6}[c])
                    t, _ = tensor(w.s, "target", before)
                    what = {"width, height, channels, bits": (w_, h_, c, depth), "tensor before": before}
                    try:
                        first = el(w.stream) if kind == "png" else w.path
                        r, ok = outcome(w, f, {0: first, 1: el(t)})
                        if not ok:
                            raise Bad("the image is refused")
                        if shape(w.s, t) != (1, w_, h_, c):
                            raise Bad("samples, width, height and maps of the tensor: %s" % (shape(w.s, t),))
                        p = w.s.query(T_, "data_ptr_const", t, nparams=0)
                        for m in range(c):
                            for y in range(h_):
                                for x in range(w_):
                                    v = w.s.st.env.get(el(padd(p, num(x + w_ * (y + h_ * m)))))
                                    if v is None:
                                        if any(e.kind == "store" and e.loops for e in r.effects):
                                            raise Unknown("element (%d, %d, %d)" % (x, y, m))
                                        raise Bad("element x=%d y=%d map=%d is never set" % (x, y, m))
                                    want = sym("p_%d_%d" % (y, x * c + m))
                                    have = [z for z in walk(v) if z.op == "sym"]
                                    if contains(v, lambda z: z.op in ("unk", "ld", "phi", "call", "ite")):
                                        raise Unknown("element (%d, %d, %d): %s" % (x, y, m, show(v)[:80]))
                                    if not have or set(have) != {want}:
                                        raise Bad("element x=%d y=%d map=%d is %s instead of sample %d of line %d" % (x, y, m, show(v)[:60], x * c + m, y))
                                    if (x, y) in ((0, 0), (w_ - 1, h_ - 1)):
                                        conversion(v, want, depth)
                        w.leaks(r)
                        if kind == "jpg" and render(w.named) != render(NAME):
                            raise Bad("another file is opened")
                    except Bad as e:
                        return Verdict("different", None, dict(what, why=e.args[0]))
                    R.uses(*w.s.fns)
                    R.uses(*sorted(w.s.E.inlined))
                    done += 1
    return Verdict("equal", "normal form", points=done)


def refused(prog, kind, R):
    """what cannot be converted is refused, and leaves nothing behind"""
    done = 0
    cases = [("read", {k: False}) for k in ("signature", "handle", "info")] + [("read", {"depth": d, "c": 1, "color": 0}) for d in (1, 2, 4)] + [("read", {"color": 3, "c": 1})]
    cases += [("write", {"handle": False}), ("write", {"info": False}), ("write", {"dims": (2, 2, 2, 3)}), ("write", {"dims": (1, 2, 2, 1)}), ("write", {"dims": (1, 2, 2, 4)})]
    if kind == "jpg":
        cases = [("read", {"file": False}), ("write", {"file": False}), ("write", {"dims": (1, 2, 2, 1)}), ("write", {"dims": (1, 3, 2, 2)})]
    for way, kw in cases:
        dims = kw.get("dims", (1, 2, 2, 3) if way == "write" else (1, 1, 2, 1))
        w = World(prog, **dict({"w": dims[1], "h": dims[2]} if way == "write" else {"w": 2, "h": 2}, **{k: x for k, x in kw.items() if k != "dims"}))
        t, p = tensor(w.s, "target", dims)
        f = fn(prog, (PNG if kind == "png" else JPG) + {"read": "LoadFrom", "write": "WriteTo"}[way] + ("Stream" if kind == "png" else "File"))
        what = {"case": "%s, %s" % (way, ", ".join("%s: %s" % x for x in kw.items()))}
        try:
            r, ok = outcome(w, f, {0: el(w.stream) if kind == "png" else w.path, 1: el(t)})
            if ok:
                raise Bad("it is not refused")
            if shape(w.s, t) != dims:
                raise Bad("the tensor is changed")
            w.leaks(r)
        except Bad as e:
            return Verdict("different", None, dict(what, why=e.args[0]))
        R.uses(*w.s.fns)
        done += 1
    return Verdict("equal", "normal form", points=done)


def written(prog, kind, R):
    """every line of the image has the levels of the tensor's pixels"""
    done = 0
    f = fn(prog, PNG + "WriteToStream" if kind == "png" else JPG + "WriteToFile")
    for w_, h_ in SIZES:
        w = World(prog, w=w_, h=h_)
        t, p = tensor(w.s, "target", (1, w_, h_, 3))
        try:
            r, ok = outcome(w, f, {0: el(w.stream) if kind == "png" else w.path, 1: el(t)})
            if not ok:
                raise Bad("the image is refused")
            if w.header[:2] != [w_, h_] or kind == "png" and w.header[2:] != [8, 2, 0]:
                raise Bad("the header says %s" % w.header)
            if "finish" not in w.events:
                raise Bad("the image is never finished")
            if kind == "jpg" and render(w.named) != render(NAME):
                raise Bad("another file is opened")
            for y in range(h_):
                for x in range(w_):
                    for m in range(3):
                        v = w.image.get((y, 3 * x + m))
                        if v is None:
                            raise Bad("line %d is never written" % y)
                        d = sym("d%d" % (x + w_ * (y + h_ * m)))
                        have = {z for z in walk(v) if z.op == "sym"}
                        if contains(v, lambda z: z.op in ("unk", "ld", "phi", "call", "ite")):
                            raise Unknown("pixel (%d, %d): %s" % (x, y, show(v)[:80]))
                        if have != {d}:
                            raise Bad("sample %d of pixel x=%d y=%d is %s instead of the element of map %d" % (m, x, y, show(v)[:60], m))
                        if (x, y) in ((0, 0), (w_ - 1, h_ - 1)):
                            for k in range(256):
                                a = cnum(v)(Ctx({d: k * 0.003921569}, 1))
                                if a != k:
                                    raise Bad("the number of level %d is written as %s" % (k, a))
                            for k in range(1, 100):
                                a = cnum(v)(Ctx({d: k / 100.}, 1))
                                if abs(a - 2.55 * k) >= 1:
                                    raise Bad("%g is written as level %s" % (k / 100., a))
            w.leaks(r)
        except Bad as e:
            return Verdict("different", None, {"width, height": (w_, h_), "why": e.args[0]})
        R.uses(*w.s.fns)
        R.uses(*sorted(w.s.E.inlined))
        done += 1
    return Verdict("equal", "normal form", points=done)


ENDINGS = [(".png", "png"), (".PNG", "png"), (".jpg", "jpg"), (".JPG", "jpg"), (".jpeg", "jpg"), (".JPEG", "jpg"), (".Tensor", "tensor"), (".bmp", None), (".txt", None), ("g", None), (".pn", None)]
METHODS = {("png", "read"): PNG + "LoadFromStream", ("png", "write"): PNG + "WriteToStream", ("jpg", "read"): JPG + "LoadFromFile", ("jpg", "write"): JPG + "WriteToFile",
           ("tensor", "read"): T_ + "::Deserialize", ("tensor", "write"): T_ + "::Serialize"}


def by_name(prog, way, R):
    """the ending of its name decides how a file is read or written"""
    f = [g for g in prog.byq[T_ + ("::LoadFromFile" if way == "read" else "::WriteToFile")] if len(g["params"]) == 1][0]
    done = 0
    for end, kind in ENDINGS + [("", None)]:
        for exists in (True, False) if kind else (True,):
            for good in (True, False) if kind in ("png", "jpg") and exists else (True,):
                name = text(lit("some.png/png picture" if end else "it"), lit(end)) if end != "g" else text(lit("g"))
                s = Session(prog, depth=40)
                texts.prepare(s)
                s.E.concrete = True
                calls = []
                for (k, w), q in METHODS.items():
                    def h(E, fn, obj, args, n, st, k=k, w=w):
                        if E.loops or [c for c in st.pc if c is not T]:
                            raise Unknown("which conversion is used is not determined")
                        place, t = None, obj
                        if k == "jpg":
                            place = render(texts.as_text(E, E.ev(args[0], st), st))
                            t = addr(E.lv(args[1], st))
                        else:
                            lv = E.lv(args[0], st)
                            v = E.load(lv, st)
                            if v.op == "obj":
                                place = (v.a[0].split("<")[0].split("::")[-1], render(texts.as_text(E, v.a[2], st)), [x for x in v.a[3:]])
                            if k == "png":
                                t = addr(E.lv(args[1], st))
                        calls.append((k, w, place, t))
                        return mk("void") if k == "tensor" else T if good and exists else F
                    s.E.hooks[q] = h
                B = "std::basic_ios<char>::"
                for k, v in (("good", exists), ("fail", not exists), ("bad", False), ("operator bool", exists), ("operator!", not exists)):
                    s.E.hooks[B + k] = lambda E, fn, obj, args, n, st, v=v: T if v else F
                for q in ("ifstream", "ofstream"):
                    s.E.hooks["std::basic_%s<char>::is_open" % q] = lambda E, fn, obj, args, n, st: T if exists else F
                t = s.construct(T_, "tensor", [])
                path = mk("gvar", "file name")
                s.st.env[path] = name
                what = {"file": render(name), "it can be opened": exists, "the conversion succeeds": good, "way": way}
                try:
                    try:
                        r = s.run(f, this=t, args={0: path}, cls=T_)
                        thrown = any(e.kind == "throw" for e in r.exits)
                        if thrown:
                            raise Bad("an exception leaves the function")
                        if [e for e in r.exits if e.kind == "return" and [c for c in e.st.pc if c is not T]]:
                            raise Unknown("whether the file is refused is not determined")
                        over = s.st.dead
                    except NeverReturns:
                        over = True
                    if kind is None or not good or not exists:
                        if not over:
                            raise Bad("it is not refused")
                        if kind is None and calls:
                            raise Bad("it is treated as %s" % calls[0][0])
                    else:
                        if over:
                            raise Bad("it is refused")
                        if [(c[0], c[1]) for c in calls] != [(kind, way)]:
                            raise Bad("conversions called: %s instead of %s" % (["%s %s" % c[:2] for c in calls], kind))
                        where, obj = calls[0][2], calls[0][3]
                        if where is None:
                            raise Unknown("stream that is used")
                        if (where if kind == "jpg" else where[1]) != render(name):
                            raise Bad("another file is used: %s" % (where,))
                        if obj is not t:
                            raise Bad("another tensor is used")
                except Bad as e:
                    return Verdict("different", None, dict(what, why=e.args[0]))
                R.uses(*s.fns)
                R.uses(*sorted(s.E.inlined))
                done += 1
    return Verdict("equal", "normal form", points=done)


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["libpng and libjpeg do what they document; their calls are abstract",
                      "image sizes %s; samples are arbitrary" % ", ".join("%dx%d" % x for x in SIZES)]

    def where(q):
        f = fn(prog, q)
        return "%s:%d" % (f["file"], f["line"])
    for kind, a, b in (("png", PNG + "LoadFromStream", PNG + "WriteToStream"), ("jpg", JPG + "LoadFromFile", JPG + "WriteToFile")):
        R.guard("%s files read" % kind, where(a), "every element of the tensor is the share of its pixel's sample, in a tensor of the image's size", lambda kind=kind: loaded(prog, kind, R))
        R.guard("%s files written" % kind, where(b), "every pixel has the levels of its elements, an image that was read is written with the same levels", lambda kind=kind: written(prog, kind, R))
        R.guard("%s files refused" % kind, where(a), "what the conversion cannot handle is refused, the tensor stays and nothing is left behind", lambda kind=kind: refused(prog, kind, R))
    for way, q in (("read", "::LoadFromFile"), ("write", "::WriteToFile")):
        R.guard("kind of file to %s" % way, where(T_ + q), "the ending of its name decides the format of a file; what cannot be opened or converted is refused", lambda way=way: by_name(prog, way, R))
