"""Byte streams: reads and writes of a summary become events with their width and content."""
from terms import *


def unit(n):
    """bytes of one element of the integers a pointer expression refers to, or 0"""
    from engine import is_ptr, base_type, is_array
    while n.get("k") == "cast":
        n = n["e"]
    t = n.get("t", "").strip()
    if is_array(t):
        t = t[:t.rindex("[")]
    elif is_ptr(t):
        t = t.rstrip()[:-1]
    else:
        return 0
    return {"long": 8, "unsigned long": 8, "uint64_t": 8, "int64_t": 8, "size_t": 8, "long long": 8, "unsigned long long": 8,
            "int": 4, "unsigned int": 4, "uint32_t": 4, "int32_t": 4, "short": 2, "unsigned short": 2}.get(base_type(t).replace("const ", "").replace("std::", ""), 0)


def io_hooks(wsym="rd"):
    """hooks making stream operations explicit 'io' effects"""
    count = [0]

    def fields(p, w, arg):
        """the elements of a local array of integers that w bytes at p cover"""
        b, i = ptr_parts(p)
        u = unit(arg)
        if b.op != "arr" or not u or not is_num(w) or not is_num(i) or int(w.a[0]) % u:
            return []
        return [(el(b, add(i, num(j))), u) for j in range(int(w.a[0]) // u)]

    def write(E, fn, obj, args, n, st):
        p, w = E.ev(args[0], st), E.ev(args[1], st)
        for lv, u in fields(p, w, args[0]):
            E.emit("io", st, n, op="write", stream=obj, ptr=addr(lv), n=num(u), val=E.load(lv, st))
            w = None
        if w is None:
            return obj
        val = E.load(el(p), st) if p.op == "addr" else None
        E.emit("io", st, n, op="write", stream=obj, ptr=p, n=w, val=val)
        return obj

    def read(E, fn, obj, args, n, st):
        p, w = E.ev(args[0], st), E.ev(args[1], st)
        for lv, u in fields(p, w, args[0]):
            count[0] += 1
            v = sym("%s%d" % (wsym, count[0])) if not E.loops else mk("input", E.nid())
            E.store(lv, v, st, n, quiet=True)
            E.emit("io", st, n, op="read", stream=obj, ptr=addr(lv), n=num(u), val=v)
            w = None
        if w is None:
            return obj
        count[0] += 1
        v = None
        if p.op == "addr":
            v = sym("%s%d" % (wsym, count[0])) if not E.loops else mk("input", E.nid())
            E.store(p.a[0], v, st, n, quiet=E._local_root(p.a[0]))
        else:
            E.kill_under(el(p), st)
        E.emit("io", st, n, op="read", stream=obj, ptr=p, n=w, val=v)
        return obj

    def put(E, fn, obj, args, n, st):
        E.emit("io", st, n, op="write", stream=obj, ptr=None, n=ONE, val=E.ev(args[0], st))
        return obj

    def seekg(E, fn, obj, args, n, st):
        w = E.ev(args[0], st)
        rel = len(args) > 1
        way = E.ev(args[1], st) if rel else None
        E.emit("io", st, n, op="seek", stream=obj, ptr=None, n=w, val=way)
        return obj

    def tellg(E, fn, obj, args, n, st):
        count[0] += 1
        v = sym("tell%d" % count[0])
        E.emit("io", st, n, op="tell", stream=obj, ptr=None, n=ZERO, val=v)
        return v

    def conv(E, fn, obj, args, n, st):
        return E.load(el(obj), st)
    return {
        "std::basic_ostream<char>::write": write, "std::basic_istream<char>::read": read,
        "std::basic_ostream<char>::put": put,
        "std::basic_istream<char>::seekg": seekg, "std::basic_istream<char>::tellg": tellg,
        "std::fpos<__mbstate_t>::operator long": conv,
    }


def bytes_written(effects, c, skip=None):
    """[(n, scalar value | ('buf', pointer), where)] at point c, in order"""
    from compare import Play, cnum, cptr, asint, Unknown
    out = []

    def on(e, c):
        if e.kind != "io" or e.d["op"] != "write":
            return
        n = asint(cnum(e.d["n"])(c))
        if n == 0:
            return
        if e.d["val"] is not None:
            out.append((n, cnum(e.d["val"])(c), e.where()))
            return
        out.append((n, ("buf", cptr(e.d["ptr"])(c)), e.where()))
    Play(effects, ("store", "io")).run(c, on)
    return out


def replay_reads(effects, c, written, start=0):
    """feed `written` to the reader at point c.  -> (buffers, position, witness or None);
    buffers: [(destination pointer, n, source pointer, where, file position)]"""
    from compare import Play, cnum, cptr, asint, Unknown
    pos = [0]
    bufs, bad, maps = [], [], []
    total = sum(w[0] for w in written)
    index, p = {}, 0
    for w in written:
        index[p] = w
        p += w[0]

    def on(e, c):
        if bad:
            return
        if e.kind == "throw":
            raise Unknown("reader gives up")
        if e.kind == "call" and e.d["q"] in ("mmap", "mmap64"):
            maps.append((cptr(e.d["ret"])(c), asint(cnum(e.d["args"][1])(c)), asint(cnum(e.d["args"][5])(c)) - start,
                         asint(cnum(e.d["args"][4])(c)), e.where()))
            return
        if e.kind != "io":
            return
        if e.d["op"] == "tell":
            c.assign[e.d["val"]] = pos[0] + start
        elif e.d["op"] == "seek":
            n = asint(cnum(e.d["n"])(c))
            way = e.d["val"]
            if way is None:
                pos[0] = n - start
            else:
                w = asint(cnum(way)(c))
                if w != 1:
                    bad.append({"what": "%s: seeks relative to %d" % (e.where(), w), "at": e.where()})
                pos[0] += n
        elif e.d["op"] == "read":
            n = asint(cnum(e.d["n"])(c))
            if n == 0:
                return
            src = index.get(pos[0])
            if src is None or src[0] != n:
                bad.append({"what": "%s reads %d bytes at position %d, where the writer put %s" % (
                    e.where(), n, pos[0], "%d bytes (%s)" % (src[0], src[2]) if src else "no field"), "at": e.where()})
                return
            isbuf = isinstance(src[1], tuple)
            if e.d["val"] is not None and not isbuf:
                c.assign[e.d["val"]] = src[1]
            elif e.d["val"] is None and isbuf:
                bufs.append((cptr(e.d["ptr"])(c), n, src[1][1], e.where(), pos[0]))
            else:
                bad.append({"what": "%s reads a %s where the writer put a %s (%s)" % (
                    e.where(), "buffer" if e.d["val"] is None else "field", "buffer" if isbuf else "field", src[2]), "at": e.where()})
            pos[0] += n
    Play(effects, ("store", "io", "call", "throw")).run(c, on)
    return bufs, maps, pos[0], (bad[0] if bad else None), total
