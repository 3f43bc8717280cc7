"""Compression loses nothing: what the compressor writes, the decompressor turns back into the same numbers."""
import random
import engine
from terms import *
from program import program
from session import Session, NeverReturns
from compare import Verdict, Unknown

MIN = 2
CT, T_ = "Conv::CompressedTensor", "Conv::Tensor"
X, Y = ord("X"), ord("Y")


class Bad(Exception):
    pass


def start(prog):
    s = Session(prog)
    s.E.concrete = True
    s.E.bytes = True
    s.E.peel_limit = 1 << 20
    s.others = set()

    def fold(op, a, b):
        """bytes are different from any other constant they are compared with (such constants are noted)"""
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if x.op == "byte" and is_num(y) and y.a[0] not in (X, Y):
                    s.others.add(int(y.a[0]))
                    return F if op == "==" else T
        return None
    s.E.cmp_fold = fold
    return s


def settled(s, done):
    if s.others:
        raise Unknown("bytes are compared with %s" % sorted(s.others))


def byte(v, b):
    return s_byte(v, b)


def s_byte(v, b):
    return engine.Engine.byte_of(v, b)


def symbols(s, kinds):
    """one number per kind: "0" for zero or four characters, X and Y for bytes with that value, . for any other"""
    out = []
    for i, k in enumerate(kinds):
        d = sym("d%d" % i)
        if k == "0":
            d = ZERO
        else:
            s.E.assume(s.st, not_(eq0(d)))
            for b, c in enumerate(k):
                for m in (X, Y):
                    e = eq0(sub(s_byte(d, b), num(m)))
                    s.E.assume(s.st, e if c == chr(m) else not_(e))
            for e in out:
                if e is not ZERO:
                    s.E.assume(s.st, not_(eq0(sub(d, e))))
        out.append(d)
    return out


def code(prog, name):
    return [g for g in prog.byq[CT + "::" + name] if len(g["params"]) == 4][0]


def stored(s, buf, n, what):
    """the first n bytes behind a pointer"""
    out = []
    for i in range(n):
        v = s.st.env.get(el(padd(buf, num(i))))
        if v is None:
            raise Bad("%s: byte %d of %d is never written" % (what, i, n))
        if contains(v, lambda x: x.op == "undef"):
            raise Bad("%s: byte %d of %d is not initialised" % (what, i, n))
        out.append(v)
    return out


def number(v, what):
    if not is_num(v):
        raise Unknown("%s: %s" % (what, show(v)[:120]))
    return int(v.a[0])


def same_byte(s, v, w):
    if v is w:
        return True
    c = s.E.simplify(eq0(sub(v, w)), s.st)
    if c is T or c is F:
        return c is T
    if any(x.op in ("undef", "undefobj") for y in (v, w) for x in walk(y)):
        return False
    a = [x for x in walk(sub(v, w)) if x.op not in ("byte", "sym", "num", "poly", "cvt8")]
    if a:
        raise Unknown("byte %s" % show(v)[:120])
    return False


def compress(prog, s, data):
    f = code(prog, "CompressData")
    src, buf = addr(mk("gvar", "numbers")), addr(mk("gvar", "packed"))
    for i, d in enumerate(data):
        s.st.env[el(padd(src, num(i)))] = d
    n, m = mk("gvar", "count"), mk("gvar", "packed size")
    s.st.env[n], s.st.env[m] = num(len(data)), ZERO
    try:
        r = s.run(f, args={0: src, 1: n, 2: buf, 3: m}, cls=CT)
    except NeverReturns:
        raise Bad("the compressor gives up")
    if s.st.dead:
        raise Bad("the compressor does not return")
    k = number(s.st.env.get(m), "size of the compressed data")
    top = writes(r, buf, "the compressor")
    if top >= 8 * len(data) + 2:
        raise Bad("%d numbers take %d bytes, more than the buffer of 8 bytes per number and 2 holds" % (len(data), top + 1))
    if number(s.st.env.get(n), "count") != len(data):
        raise Bad("the number of elements changes")
    return stored(s, buf, k, "compressed data")


def writes(r, buf, who):
    top = -1
    for e in r.effects:
        if e.kind == "call" and e.d.get("ext") and any(contains(x, lambda y: y is buf) for x in e.d["args"]):
            raise Unknown("%s hands its output to %s" % (who, e.d["q"]))
        if e.kind == "store" and e.d["lv"].op == "el":
            b, i = ptr_parts(e.d["lv"].a[0])
            i = add(i, e.d["lv"].a[1])
            if e.loops or not is_num(i):
                raise Unknown("a loop of %s is not unrolled" % who)
            if b is buf:
                if int(i.a[0]) < 0:
                    raise Bad("%s writes in front of its output" % who)
                top = max(top, int(i.a[0]))
        elif e.kind in ("store",) and e.loops:
            raise Unknown("a loop of %s is not unrolled" % who)
    return top


def decompress(prog, s, packed, count):
    f = code(prog, "DecompressData")
    buf, out = addr(mk("gvar", "stored")), addr(mk("gvar", "unpacked"))
    for i, v in enumerate(packed):
        s.st.env[el(padd(buf, num(i)))] = v
    n, m = mk("gvar", "unpacked count"), mk("gvar", "stored size")
    s.st.env[n], s.st.env[m] = ZERO, num(len(packed))
    try:
        r = s.run(f, args={0: out, 1: n, 2: buf, 3: m}, cls=CT)
    except NeverReturns:
        raise Bad("the decompressor refuses it")
    for e in r.exits:
        if e.kind == "throw":
            raise Bad("the decompressor refuses it")
    if s.st.dead:
        raise Bad("the decompressor refuses it")
    k = number(s.st.env.get(n), "number of decompressed numbers")
    if writes(r, out, "the decompressor") >= 4 * count:
        raise Bad("the decompressor writes behind the %d numbers" % count)
    if k != count:
        raise Bad("%d numbers come back as %d" % (count, k))
    return stored(s, out, 4 * k, "decompressed data")


def compare(s, data, got):
    for i, d in enumerate(data):
        for b in range(4):
            if not same_byte(s, got[4 * i + b], s_byte(d, b)):
                raise Bad("number %d of %d comes back as another number" % (i, len(data)))


def canonical(data, runs):
    """a compressed stream of the documented format: bytes with X doubled, runs as X Y length number"""
    out = []
    for d, k, n, packed in runs:
        bs = [s_byte(d, b) for b in range(4)]
        if packed:
            out += [num(X), num(Y), num(n)] + bs
        else:
            for _ in range(n):
                for b, v in enumerate(bs):
                    out += [num(X), num(X)] if k != "0" and k[b] == "X" else [v]
    return out


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["single precision numbers of four bytes; every number that is not zero is arbitrary apart from which of its bytes equal the two marker bytes",
                      "different symbols of one sequence are different numbers; a number that is not a number differs from itself and is covered by runs of one",
                      "run lengths and sequences as enumerated: every run length class of the format on its own, sequences of several runs sampled"]

    def where(name):
        f = code(prog, name)
        return "%s:%d" % (f["file"], f["line"])
    rng = random.Random(R.seed)
    some = [1, 2, 3, 4, 5, 6, 17]
    every = list(range(1, 270))
    long_ = [1, 2, 3, 4, 127, 128, 252, 253, 254, 255]
    masks = [a + b + c + d for a in "X.Y" for b in "X.Y" for c in "X.Y" for d in "X.Y"]

    def roundtrip(cases):
        def g():
            done = 0
            for kinds, runs in cases:
                s = start(prog)
                ds = symbols(s, kinds)
                data = [ds[i] for i, n in runs for _ in range(n)]
                what = {"symbols (bytes equal to the markers)": kinds, "runs (symbol, length)": runs}
                try:
                    packed = compress(prog, s, data)
                    compare(s, data, decompress(prog, s, packed, len(data)))
                except Bad as e:
                    return Verdict("different", None, dict(what, why=e.args[0]))
                settled(s, done)
                R.uses(*s.fns)
                R.uses(*sorted(s.E.inlined))
                done += 1
            return Verdict("equal", "identity test", points=done)
        return g
    w = where("CompressData")
    rule = "unpacking what was packed gives the same numbers, in a buffer of eight bytes per number and two"
    R.guard("single numbers", w, rule, roundtrip([(["0"], [(0, 1)]), ([], [])] + [([m], [(0, 1)]) for m in masks]))
    R.guard("pairs of numbers", w, rule, roundtrip([([a, b], [(0, 1), (1, 1)]) for a in ("0", "X...", "...X", "XXXX", ".XY.", "YXYX") for b in ("0", "X...", "...X", "XXXX", "Y..X", "XYXY") if a != "0" or b != "0"]))
    for first in ("0", "....", "X..Y", "XXXX"):
        for after in (None, "XYXX" if first != "XXXX" else "0"):
            R.guard("runs of %s %s" % ({"0": "zeros", "....": "numbers without marker bytes"}.get(first, "numbers %s" % first), "at the end" if after is None else "before another number"), w, rule,
                    roundtrip([([first] + ([after] if after else []), [(0, n)] + ([(1, 1)] if after else [])) for n in (every if R.thorough else long_ if first in (("....",) if after else ("0", "X..Y")) else some)]))
    R.guard("long runs", w, rule, roundtrip([([a], [(0, n)]) for a, n in ((("0", 506), ("X..X", 507)) if not R.thorough else
                                                                       [(a, n) for a in ("0", "X..X", "....") for n in list(range(500, 515)) + [759, 760, 761, 1013]])]))

    def several():
        out = []
        for _ in range(150 if R.thorough else 14):
            kinds = rng.sample(["0", "....", "X...", "..YX", "XXXX", "YYYY", ".XY."], 3)
            runs, last = [], None
            for _ in range(rng.randint(2, 6)):
                i = rng.choice([x for x in range(3) if x != last])
                runs.append((i, rng.choice((1, 1, 2, 3, 5, 252, 253, 254) if rng.random() < 0.3 else (1, 1, 2, 3, 4))))
                last = i
            out.append((kinds, runs))
        return out
    R.guard("sequences of runs", w, rule, roundtrip(several()))

    def stored_files():
        done = 0
        for kinds, runs in [(["X.Y.", "0"], [(0, 2, True), (1, 255, True)]), (["XXXX"], [(0, 1, False)]), (["....", "X..."], [(0, 3, False), (1, 1, False), (0, 1, True)]),
                            (["YXYX"], [(0, 253, True)]), (["YXYX"], [(0, 128, True)]), (["0"], [(0, 0, True)]), (["....", "..X."], [(0, 1, True), (1, 2, False), (0, 0, True), (1, 200, True)])]:
            s = start(prog)
            ds = symbols(s, kinds)
            data = [ds[i] for i, n, _ in runs for _ in range(n)]
            try:
                compare(s, data, decompress(prog, s, canonical(data, [(ds[i], kinds[i], n, p) for i, n, p in runs]), len(data)))
            except Bad as e:
                return Verdict("different", None, {"symbols": kinds, "runs (symbol, length, packed)": runs, "why": e.args[0]})
            settled(s, done)
            done += 1
        return Verdict("equal", "identity test", points=done)
    R.guard("files in the documented format", where("DecompressData"), "doubled markers and packed runs of up to 255 numbers are unpacked", stored_files)

    def tensors(given):
        def g():
            done = 0
            for dims, kinds, runs in [((1, 2, 1, 2), ["X.YX", "0"], [(0, 1), (1, 3)]), ((2, 1, 3, 1), ["XXXX", "YYYY"], [(0, 1), (1, 1)] * 3), ((1, 1, 1, 1), ["0"], [(0, 1)]),
                                      ((2, 2, 2, 3), ["....", "..X."], [(0, 20), (1, 4)]), ((1, 20, 15, 1), ["0"], [(0, 300)])]:
                s = start(prog)
                ds = symbols(s, kinds)
                data = [ds[i] for i, n in runs for _ in range(n)]
                what = {"samples, width, height, maps": dims, "symbols": kinds, "runs (symbol, length)": runs}
                t, c, u = s.construct(T_, "tensor", [num(x) for x in dims]), s.construct(CT, "compressed", []), s.construct(T_, "result", [])
                p = s.query(T_, "data_ptr_const", t, nparams=0)
                for i, d in enumerate(data):
                    s.st.env[el(padd(p, num(i)))] = d
                r = s.run(s.method(CT, "Compress", 1), this=c, args={0: el(t)}, cls=CT)
                room = {e.d["ptr"]: e.d.get("n") for e in r.effects if e.kind == "new"}
                try:
                    for e in r.effects:
                        if e.kind == "store" and e.d["lv"].op == "el":
                            b, i = ptr_parts(e.d["lv"].a[0])
                            i = add(i, e.d["lv"].a[1])
                            if b in room and room[b] is not None:
                                if not is_num(i) or not is_num(room[b]):
                                    raise Unknown("size of the buffer %s" % show(room[b]))
                                if not 0 <= int(i.a[0]) < int(room[b].a[0]):
                                    raise Bad("byte %s of a buffer of %s bytes is written" % (show(i), show(room[b])))
                    buf = addr(mk("gvar", "given buffer")) if given else NULL
                    try:
                        r = s.run(s.method(CT, "Decompress", 2), this=c, args={0: el(u), 1: buf}, cls=CT)
                    except NeverReturns:
                        raise Bad("the decompressor refuses it")
                    got = [s.query(T_, q, u) for q in ("samples", "width", "height", "maps", "elements")]
                    for x, y, q in zip(got, dims + (len(data),), ("samples", "width", "height", "maps", "elements")):
                        if number(x, q) != y:
                            raise Bad("%s of the unpacked tensor: %s instead of %d" % (q, show(x), y))
                    out = s.query(T_, "data_ptr_const", u, nparams=0)
                    if given and out is not buf:
                        raise Bad("the tensor does not use the memory it was given")
                    if contains(out, lambda x: x.op in ("ld", "unk", "call", "ite", "phi")):
                        raise Unknown("memory of the unpacked tensor: %s" % show(out)[:100])
                    compare(s, data, stored(s, out, 4 * len(data), "unpacked tensor"))
                except Bad as e:
                    return Verdict("different", None, dict(what, why=e.args[0]))
                settled(s, done)
                R.uses(*s.fns)
                R.uses(*sorted(s.E.inlined))
                done += 1
            return Verdict("equal", "identity test", points=done)
        return g
    R.guard("tensors", where2(prog, "Compress"), "a tensor that was compressed and decompressed has its shape and its numbers again", tensors(False))
    R.guard("tensors, into given memory", where2(prog, "Decompress"), "a tensor that was compressed and decompressed has its shape and its numbers again", tensors(True))


def where2(prog, name):
    f = prog.byq[CT + "::" + name][0]
    return "%s:%d" % (f["file"], f["line"])
