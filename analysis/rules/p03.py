"""Writer and readers of the binary tensor formats agree on every field."""
import random
from terms import *
from session import Session
from program import program
from compare import Verdict, Unknown, cptr, cnum, asint, Ctx
from streams import io_hooks, bytes_written, replay_reads

MIN = 8
T_, C_ = "Conv::Tensor", "Conv::CompressedTensor"
MODES = {"read": (F, F, ZERO), "header only": (T, F, ZERO), "mapped": (F, T, num(5)), "mapping asked for without a file": (F, T, ZERO)}


def run(R):
    prog = program("ref")
    R.configs.add("ref")
    R.assumptions += ["element and byte counts are exact integers", "a stream read of n bytes delivers the n bytes written at that position",
                      "mmap of n bytes at offset o presents the file bytes o..o+n"]
    S, W, H, M, L = [sym(x) for x in ("S", "W", "H", "M", "L")]

    def writer(cls, empty):
        s = Session(prog, nonempty=False, hooks=io_hooks("w"))
        s.E.concrete = True
        if cls == T_:
            t = s.construct(cls, "src", [S, W, H, M])
            args = {0: mk("gvar", "out"), 1: F}
        else:
            t = s.construct(cls, "src", [])
            s.run(s.method(cls, "Resize", 7), this=t, args={0: S, 1: W, 2: H, 3: M, 4: L, 5: NULL, 6: F}, cls=cls)
            args = {0: mk("gvar", "out")}
        r = s.run(s.method(cls, "Serialize", len(args)), this=t, args=args, cls=cls)
        R.uses(*s.fns)
        return s, t, r.effects

    def reader(cls, mode, before):
        s = Session(prog, nonempty=False, hooks=io_hooks("rd"))
        s.E.concrete = True
        t = s.construct(cls, "dst", [])
        if before == "used":
            d = [sym(x + "0") for x in "SWHM"]
            if cls == T_:
                s.run(s.method(cls, "Resize", 7), this=t, args=dict(enumerate(d + [NULL, F, F])), cls=cls)
            else:
                s.run(s.method(cls, "Resize", 7), this=t, args=dict(enumerate(d + [sym("L0"), NULL, F])), cls=cls)
        a = MODES[mode]
        r = s.run(s.method(cls, "Deserialize"), this=t, args={0: mk("gvar", "in"), 1: a[0], 2: a[1], 3: a[2]}, cls=cls)
        R.uses(*s.fns)
        return s, t, r.effects

    def dims(s, cls, t):
        q = [s.query(cls, n, t, nparams=0) for n in ("samples", "width", "height", "maps", "elements")]
        if cls == C_:
            q.append(s.get(t, "compressed_length_"))
        return q

    def data(s, cls, t):
        return s.get(t, "data_ptr_" if cls == T_ else "compressed_data_ptr_")

    def check(cls, mode, before):
        ws, wt, we = writer(cls, False)
        rs, rt, re_ = reader(cls, mode, before)
        wd, rd = dims(ws, cls, wt), dims(rs, cls, rt)
        src, dst = data(ws, cls, wt), data(rs, cls, rt)
        rng = random.Random(R.seed * 7 + 3)
        done, full, unk = 0, 0, None
        want = 400 if R.thorough else 100
        for t in range(want * 10):
            if done >= want:
                break
            hi = rng.choice((1, 3, 5, 9))
            asg = {sym(x): rng.randint(1, hi) for x in ("S", "W", "H", "M", "S0", "W0", "H0", "M0", "L", "L0")}
            if rng.random() < 0.2:
                z = rng.choice("SWHM")
                asg[sym(z)] = 0
                asg[L] = 0
            if rng.random() < 0.4:
                v = [asg[sym(x)] for x in "SWHM"]
                rng.shuffle(v)
                for x, y in zip("SWHM", v):
                    asg[sym(x + "0")] = y
            start = rng.randint(0, 9000)
            ca, cb = Ctx(dict(asg), 5), Ctx(dict(asg), 5)
            for x in {y for e in re_ for v in e.d.values() if isinstance(v, tuple) for z in v if isinstance(z, Term) for y in walk(z)}:
                if x.op == "call" and x.a[0] == "sysconf":
                    cb.assign[x] = 4096
            if mode == "header only" and 0 in (asg[S], asg[W], asg[H], asg[M]) and before == "used":
                continue
            try:
                written = bytes_written(we, ca)
                point = {show(k): v for k, v in asg.items()}
                if asg[S] * asg[W] * asg[H] * asg[M]:
                    # the content reaches the file as one block of exactly the tensor's bytes
                    n = 4 * asg[S] * asg[W] * asg[H] * asg[M] if cls == T_ else asg[L]
                    b = [w for w in written if isinstance(w[1], tuple)]
                    if len(b) != 1 or b[0][0] != n or b[0][1][1] != cptr(src)(ca):
                        return Verdict("different", "the payload written is not the tensor's buffer", {"point": point, "written": repr(b), "required bytes": n})
                bufs, maps, pos, bad, total = replay_reads(re_, cb, written, start)
                if bad:
                    bad["point"] = point
                    return Verdict("different", bad["what"], bad)
                if pos != total:
                    return Verdict("different", "reader leaves the stream at byte %d of the %d written" % (pos, total), {"point": point})
                names = ("samples", "width", "height", "maps", "elements", "compressed length")
                for nm, a, b in zip(names, wd, rd):
                    x, y = cnum(a)(ca), cnum(b)(cb)
                    if mode == "mapped" and not asg[S] * asg[W] * asg[H] * asg[M]:
                        continue
                    if x != y:
                        return Verdict("different", "%s differs after reading back" % nm, {"point": point, "written": x, "read": y})
                payload = [(p, w) for p, w in _positions(written) if isinstance(w[1], tuple)]
                if payload and mode != "header only":
                    (p, w) = payload[0]
                    d = cptr(dst)(cb)
                    if maps:
                        m = [x for x in maps if x[0][0] == d[0]]
                        if not m:
                            return Verdict("different", "the tensor does not refer to the mapping", {"point": point, "data": repr(d)})
                        m = m[0]
                        if m[2] + d[1] != p:
                            return Verdict("different", "mapped content starts at file position %d instead of %d" % (m[2] + d[1] + start, p + start), {"point": point, "at": m[4]})
                        if d[1] + w[0] > m[1]:
                            return Verdict("different", "mapping is too short for the content", {"point": point, "at": m[4]})
                        if (m[2] + start) % 4096:
                            return Verdict("different", "mapping does not start on a page", {"point": point, "at": m[4]})
                        if m[3] != 5:
                            return Verdict("different", "maps another file", {"point": point, "at": m[4]})
                    else:
                        b = [x for x in bufs if x[4] == p]
                        if not b or b[0][0] != d or b[0][1] != w[0]:
                            return Verdict("different", "content is not read into the tensor's buffer", {"point": point, "read": repr(bufs)})
                if mode == "mapped" and payload and not maps:
                    return Verdict("different", "asked to map the file but did not", {"point": point})
                done += 1
                full += bool(payload)
            except Unknown as e:
                unk = str(e)
        if done >= want // 2 and full >= want // 3:
            return Verdict("equal", "identity test", points=done)
        return Verdict("undecided", unk or "no admissible point", points=done)
    RULE = "reader consumes exactly the fields the writer produced and restores the same shape and content"
    for cls, nm in ((T_, "tensor"), (C_, "compressed tensor")):
        f = prog.byq[cls + "::Deserialize"][0]
        for mode in MODES:
            for before in ("fresh", "used"):
                R.guard("%s: %s into a %s object" % (nm, mode, before), "%s:%d" % (f["file"], f["line"]), RULE,
                        lambda cls=cls, mode=mode, before=before: check(cls, mode, before))


def _positions(written):
    p = 0
    for w in written:
        yield p, w
        p += w[0]
