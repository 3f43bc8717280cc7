"""Deciding whether two effect summaries denote the same memory transformer.

Step 1 (deciding): the two summaries have the same canonical form, up to the
choice and order of loop variables.
Step 2 (only where canonical forms differ): identity testing of the summary
terms - the closed forms are evaluated at small integer points, the way a
polynomial identity is tested.  It separates a real difference (a witness point
exists) from two forms the canonicaliser failed to unify.  It never touches
/repo's binary: the objects evaluated are the terms the analysis extracted.
"""
import hashlib
import itertools
import math
import random
from terms import *


class Unknown(Exception):
    """the term has no defined value for the evaluator: undecided, never an alarm"""


class Unrelated(Unknown):
    """arithmetic between pointers into different allocations"""


INF = float("inf")
LIMITS = {("lowest", "float"): -3.4e38, ("max", "float"): 3.4e38, ("min", "float"): 1.17549435e-38,
          ("lowest", "double"): -1.7e308, ("max", "double"): 1.7e308, ("min", "double"): 2.2e-308,
          ("max", "int"): 2147483647, ("min", "int"): -2147483648, ("lowest", "int"): -2147483648,
          ("max", "unsigned int"): 4294967295, ("min", "unsigned int"): 0,
          ("max", "unsigned long"): 2 ** 64 - 1, ("min", "unsigned long"): 0,
          ("max", "long"): 2 ** 63 - 1, ("max", "unsigned char"): 255, ("min", "unsigned char"): 0,
          ("infinity", "float"): INF, ("infinity", "double"): INF, ("epsilon", "float"): 1.19e-7}

FN = {"exp": math.exp, "tanh": math.tanh, "abs": abs, "floor": math.floor, "ceil": math.ceil, "sin": math.sin,
      "cos": math.cos, "exp2": lambda x: 2.0 ** x, "sinh": math.sinh, "cosh": math.cosh, "tan": math.tan,
      "atan": math.atan, "log1p": math.log1p, "expm1": math.expm1,
      "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}


def _h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, assign, seed, introots=(), intrange=None, initmem=None):
        self.assign = assign      # atom term -> value
        self.seed = seed
        self.k = {}
        self.bv = {}
        self.selfs = {}
        self.mem = {}
        self.saved = {}           # older values of overwritten locations that are still used
        self.introots = introots  # region keys holding integers
        self.intrange = intrange or {}
        self.initmem = initmem    # optional callable(loc)->value or None
        self.style = None         # None | "ties" | "negative": distribution of initial memory contents
        self.steps = 0
        self.limit = 3000000

    def init(self, loc):
        if self.initmem is not None:
            v = self.initmem(loc)
            if v is not None:
                return v
        h = _h(self.seed, loc)
        root = loc[1] if loc[0] == "el" else ("&", loc)
        if root in self.introots:
            return h % self.intrange.get(root, 4)
        if self.style == "ties":
            return (-2.25, -1.5, 0.0, 1.5)[(h >> 9) % 4]
        if self.style == "negative":
            return -0.25 - (h % 4001) / 997.0
        if self.style == "negative ties":
            return -0.25 - (h >> 9) % 3
        return ((h % 4001) - 2000) / 997.0 + 0.000137


_cn = {}
_cp = {}


def cnum(t):
    f = _cn.get(t)
    if f is None:
        f = _cn[t] = _cnum(t)
    return f


def cptr(t):
    f = _cp.get(t)
    if f is None:
        f = _cp[t] = _cptr(t)
    return f


def asint(v):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, float) and v == v and abs(v) < 1e15:
        r = round(v)
        if abs(r - v) < 1e-9:
            return int(r)
    raise Unknown("non-integer in integer position")


def cint(t):
    f = cnum(t)
    return lambda c: asint(f(c))


def cloc(lv):
    """closure giving the location key of an lvalue"""
    o = lv.op
    if o == "el":
        b, f = cptr(lv.a[0]), cint(lv.a[1])

        def g(c):
            k, off = b(c)
            off += f(c)
            return k[1] if off == 0 and k[0] == "&" else ("el", k, off)
        return g
    if o == "fld":
        b, n = cloc(lv.a[0]), lv.a[1]
        return lambda c: ("fld", b(c), n)
    if o == "arr":
        b = cloc(lv.a[0])
        return lambda c: ("arr", b(c))
    if o in ("var", "gvar", "fnref"):
        k = (o, lv.a[0])
        return lambda c: k
    k = ("?", lv.id)
    return lambda c: k


def _cptr(t):
    o, a = t.op, t.a
    if o == "ptr":
        b, f = cptr(a[0]), cint(a[1])

        def g(c):
            k, off = b(c)
            return (k, off + f(c))
        return g
    if o == "addr":
        l = cloc(a[0])
        return lambda c: (("&", l(c)), 0)
    if o in ("vdata", "arr"):
        l = cloc(a[0])
        return lambda c: ((o, l(c)), 0)
    if o == "null":
        return lambda c: (("null",), 0)
    if o == "alloc":
        k = ("alloc", a[0])
        return lambda c: (k, 0)
    if o in ("ite", "sel"):
        q, x, y = cnum(a[0]), cptr(a[1]), cptr(a[2])
        return lambda c: x(c) if q(c) else y(c)
    if o in ("ld", "ldl"):
        l = cloc(a[0])

        def g(c):
            k = l(c)
            v = c.mem.get(k)
            if isinstance(v, tuple):
                return v
            return (("*", k), 0)
        return g
    if o == "undef" or o == "unk":
        def g(c):
            raise Unknown("indeterminate pointer")
        return g
    if o == "call":
        fs = _cargs(a)
        return lambda c: (("call",) + tuple(f(c) for f in fs), 0)
    if o in ("sym", "str", "fld", "gvar", "fv", "input", "cstr", "obj", "val", "fnptr"):
        k = (o, t.id if o != "sym" else a[0])
        return lambda c: (k, 0)
    if o == "num":
        return lambda c: (("null",), int(a[0]))
    if o == "poly":
        # choice between pointers written with indicator factors
        ms = []
        for m, co in a:
            sel, atom = [], None
            for x, p in m:
                if x.op == "ind" or atom is not None:
                    sel.append(cnum(x))
                else:
                    atom = cptr(x)
            ms.append((int(co), sel, atom))

        def g(c):
            tot = {}
            for co, sel, atom in ms:
                for f in sel:
                    co = co * f(c)
                if co:
                    k = atom(c) if atom is not None else (("null",), 0)
                    tot[k] = tot.get(k, 0) + co
            r = [k for k, v in tot.items() if v and k != (("null",), 0)]
            if not r:
                return (("null",), 0)
            if len(r) == 1 and tot[r[0]] == 1:
                return r[0]
            raise Unknown("pointer arithmetic")
        return g
    k = (o, t.id)
    return lambda c: (k, 0)


def _cargs(a):
    fs = []
    for x in a:
        if isinstance(x, Term):
            if x.op == "u":
                continue
            if x.op in NONNUM or x.op in ("sym", "ld", "vdata"):
                fs.append(_any(x))
            else:
                fs.append(cnum(x))
        else:
            fs.append(lambda c, x=x: x)
    return fs


def _any(x):
    if x.op in ("ld", "sym"):
        p, n = cptr(x), cnum(x)

        def g(c):
            try:
                return n(c)
            except Unknown:
                return p(c)
        return g
    if x.op in ("val", "obj"):
        if x.op == "val":
            l = cloc(x.a[0])
            return lambda c: ("val", l(c))
        return lambda c: ("obj", x.id)
    return cptr(x)


def _raise(msg):
    def g(c):
        raise Unknown(msg)
    return g


def _cnum(t):
    o, a = t.op, t.a
    if o == "num":
        v = int(a[0]) if a[0].denominator == 1 else float(a[0])
        return lambda c: v
    if o == "true":
        return lambda c: True
    if o == "false":
        return lambda c: False
    if o == "bv":
        h = a[0]

        def g(c):
            try:
                return c.bv[h]
            except KeyError:
                raise Unknown("bv")
        return g
    if o == "self":
        key = a if len(a) > 1 else (a[0], 0)

        def g(c):
            try:
                return c.selfs[key[0]][key[1]]
            except (KeyError, IndexError, TypeError):
                raise Unknown("self")
        return g
    if o == "sym":
        def g(c):
            if t in c.k:
                return c.k[t]
            if t in c.assign:
                return c.assign[t]
            if a[0].startswith("k#"):
                raise Unknown("free loop variable")
            return c.init(("sym", a[0]))
        return g
    if o == "poly":
        ms = []
        for m, co in a:
            co = int(co) if co.denominator == 1 else float(co)
            # guards first, then factors, then divisors
            fs = sorted(m, key=lambda f: 0 if f[0].op == "ind" else 1 if f[1] > 0 else 2)
            ms.append((co, [(cnum(x), p, x.op == "ind") for x, p in fs]))

        def g(c):
            s = 0
            for co, fs in ms:
                v = co
                zero = False
                for f, p, guard in fs:
                    if zero and p > 0:
                        continue
                    x = f(c)
                    if p == 1:
                        v = v * x
                    else:
                        if p < 0 and x == 0:
                            if v == 0:
                                v = math.nan
                                break
                            raise Unknown("division by zero")
                        try:
                            v = v * (x ** p)
                        except OverflowError:
                            raise Unknown("overflow")
                    if x == 0 and v == 0:
                        if guard:
                            break
                        zero = True
                s = s + v
            return s
        return g
    if o == "grp":
        return cnum(a[0])
    if o == "ge0":
        f = cnum(a[0])
        return lambda c: f(c) >= 0
    if o == "gt0":
        f = cnum(a[0])
        return lambda c: f(c) > 0
    if o == "eq0":
        p = a[0]
        f = cnum(p)
        return lambda c: abs(f(c)) < 1e-12
    if o == "not":
        f = cnum(a[0])
        return lambda c: not f(c)
    if o == "and":
        fs = [cnum(x) for x in a]

        def g(c):
            u = None
            for f in fs:
                try:
                    if not f(c):
                        return False
                except Unknown as e:
                    u = e
            if u is not None:
                raise u
            return True
        return g
    if o == "or":
        fs = [cnum(x) for x in a]

        def g(c):
            u = None
            for f in fs:
                try:
                    if f(c):
                        return True
                except Unknown as e:
                    u = e
            if u is not None:
                raise u
            return False
        return g
    if o == "ind":
        f = cnum(a[0])
        return lambda c: 1 if f(c) else 0
    if o == "tb":
        x = a[0]
        if x.op == "exc":
            return lambda c: False
        f = cnum(x)

        def g(c):
            if x in c.assign:
                return bool(c.assign[x])
            if t in c.assign:
                return bool(c.assign[t])
            if x.op in ("sym", "ld", "call", "input"):
                v = f(c)
                if isinstance(v, bool):
                    return v
                if isinstance(v, int):
                    return v != 0
                return _h(c.seed, "b", v) % 2 == 0
            return bool(f(c))
        return g
    if o in ("ite", "sel"):
        q, x, y = cnum(a[0]), cnum(a[1]), cnum(a[2])
        return lambda c: x(c) if q(c) else y(c)
    if o in ("max", "min"):
        fs = [cnum(x) for x in a]
        m = max if o == "max" else min
        return lambda c: m(f(c) for f in fs)
    if o in ("idiv", "imod"):
        x, y = cint(a[0]), cint(a[1])

        def g(c):
            p, q = x(c), y(c)
            if q == 0:
                raise Unknown("division by zero")
            d = abs(p) // abs(q)
            if (p < 0) != (q < 0):
                d = -d
            return d if o == "idiv" else p - d * q
        return g
    if o == "trunc":
        f = cnum(a[0])

        def g(c):
            v = f(c)
            if isinstance(v, int):
                return v
            if v != v or abs(v) > 1e18:
                raise Unknown("trunc")
            return int(v)
        return g
    if o == "cvt8":
        f = cnum(a[0])

        def g(c):
            v = f(c)
            if v != v or abs(v) > 1e18:
                raise Unknown("cvt8")
            return int(v) % 256
        return g
    if o == "fn":
        n = a[0]
        fs = [cnum(x) for x in a[1:]]

        def g(c):
            vs = [f(c) for f in fs]
            try:
                if n in FN:
                    return FN[n](*vs)
                if n in ("log", "log2", "log10", "sqrt", "rsqrt"):
                    x = vs[0]
                    if x <= 0:
                        if n == "sqrt" and x == 0:
                            return 0.0
                        raise Unknown(n + " of non-positive value")
                    return {"log": math.log, "log2": math.log2, "log10": math.log10, "sqrt": math.sqrt,
                            "rsqrt": lambda z: 1 / math.sqrt(z)}[n](x)
                if n == "pow":
                    if vs[0] < 0 and not float(vs[1]).is_integer() or (vs[0] == 0 and vs[1] < 0):
                        raise Unknown("pow domain")
                    return vs[0] ** vs[1]
                if n in ("isnan", "isinf"):
                    return (math.isnan if n == "isnan" else math.isinf)(vs[0])
                if n == "isfinite":
                    return math.isfinite(vs[0])
            except (OverflowError, ValueError):
                raise Unknown("overflow")
            return (_h(c.seed, n, vs) % 1000) / 331.0
        return g
    if o == "limit":
        if a in LIMITS:
            v = LIMITS[a]
            return lambda c: v
        return _raise("limit")
    if o in ("sum", "prod", "redmax", "redmin", "ex", "first"):
        n, b = cint(a[0]), cnum(a[1])
        h = a[2]

        def g(c):
            N = n(c)
            c.steps += max(N, 0)
            if c.steps > c.limit or N > 100000:
                raise Unknown("too large")
            old = c.bv.get(h)
            try:
                if o == "sum":
                    s = 0
                    for i in range(N):
                        c.bv[h] = i
                        s += b(c)
                    return s
                if o == "prod":
                    s = 1
                    for i in range(N):
                        c.bv[h] = i
                        s *= b(c)
                    return s
                if o == "ex":
                    for i in range(N):
                        c.bv[h] = i
                        if b(c):
                            return True
                    return False
                if o == "first":
                    for i in range(N):
                        c.bv[h] = i
                        if b(c):
                            return i
                    return max(N, 0)
                best = -INF if o == "redmax" else INF
                for i in range(N):
                    c.bv[h] = i
                    v = b(c)
                    best = max(best, v) if o == "redmax" else min(best, v)
                return best
            finally:
                if old is None:
                    c.bv.pop(h, None)
                else:
                    c.bv[h] = old
        return g
    if o in ("redmaxc", "redminc"):
        n, b = cint(a[0]), cnum(a[1])
        return lambda c: b(c) if n(c) > 0 else (-INF if o == "redmaxc" else INF)
    if o == "jmu":
        N, inits, packed, h = a
        n = cint(N)
        i0 = [_any2(x) for x in inits.a]
        bs = [_any2(x) for x in packed.a]

        def g(c):
            m = n(c)
            c.steps += max(m, 0)
            if c.steps > c.limit or m > 100000:
                raise Unknown("too large")
            cur = [f(c) for f in i0]
            ob, os = c.bv.get(h), c.selfs.get(h)
            for i in range(m):
                c.bv[h] = i
                c.selfs[h] = cur
                cur = [f(c) for f in bs]
            for d, v in ((c.bv, ob), (c.selfs, os)):
                if v is None:
                    d.pop(h, None)
                else:
                    d[h] = v
            return cur[0]
        return g
    if o in ("ld", "ldl"):
        l = cloc(a[0])
        lv = a[0]

        def g(c):
            if t in c.assign:
                return c.assign[t]
            v = c.saved.get(t)
            if v is None:
                k = l(c)
                v = c.mem.get(k)
            if v is not None:
                if isinstance(v, tuple):
                    raise Unknown("pointer value")
                return v
            return c.init(k)
        if o == "ld" and len(a) > 1 and a[1] == ():
            def g(c):
                if t in c.assign:
                    return c.assign[t]
                return c.init(l(c))
        return g
    if o == "isnull":
        p = cptr(a[0])

        def g(c):
            if t in c.assign:
                return c.assign[t]
            k, off = p(c)
            return k == ("null",)
        return g
    if o == "peq":
        p, q = cptr(a[0]), cptr(a[1])
        return lambda c: p(c) == q(c)
    if o == "pdiff":
        p, q = cptr(a[0]), cptr(a[1])

        def g(c):
            x, y = p(c), q(c)
            if x[0] != y[0]:
                raise Unrelated("difference of unrelated pointers")
            return x[1] - y[1]
        return g
    if o == "pnum":
        p = cptr(a[0])

        def g(c):
            k, off = p(c)
            if k == ("null",):
                return off
            return (_h("pn", k) % 100003) * 4096 + off
        return g
    if o == "seq":
        p, q = _any(a[0]) if a[0].op != "str" else (lambda c: a[0]), _any(a[1]) if a[1].op != "str" else (lambda c: a[1])
        if a[0].op == "str" and a[1].op == "str":
            v = a[0] is a[1]
            return lambda c: v

        def g(c):
            if t in c.assign:
                return c.assign[t]
            raise Unknown("string test")
        return g
    if o in ("bit&", "bit|", "bit^"):
        x, y = cint(a[0]), cint(a[1])
        if o == "bit&":
            return lambda c: x(c) & y(c)
        if o == "bit|":
            return lambda c: x(c) | y(c)
        return lambda c: x(c) ^ y(c)
    if o == "bit~":
        x = cint(a[0])
        return lambda c: ~x(c)
    if o in ("op<<", "op>>"):
        x, y = cint(a[0]), cint(a[1])
        if o == "op<<":
            return lambda c: x(c) << (y(c) % 64)
        return lambda c: x(c) >> (y(c) % 64)
    if o == "call":
        fs = _cargs(a)
        size = len(a) > 1 and a[0] == "pure" and str(a[1]).startswith(("size ", "any "))

        def g(c):
            if t in c.assign:
                return c.assign[t]
            if size:        # an unknown function whose values are sizes
                return 1 + _h(c.seed, tuple(f(c) for f in fs)) % 150
            return ((_h(c.seed, tuple(f(c) for f in fs)) % 4001) - 2000) / 997.0
        return g
    if o in ("undef", "unk", "tuple", "phi", "trip"):
        if o == "trip":
            cond = cnum(a[0])
            h = a[2]

            def g(c):
                if contains(a[0], lambda x: x.op == "self" and len(x.a) == 1):
                    raise Unknown("trip count")
                old = c.bv.get(h)
                try:
                    for i in range(10000):
                        c.bv[h] = i
                        if not cond(c):
                            return i
                finally:
                    if old is None:
                        c.bv.pop(h, None)
                    else:
                        c.bv[h] = old
                raise Unknown("trip count")
            return g

        def g(c):
            if t in c.assign:
                return c.assign[t]
            raise Unknown(o)
        return g
    if o == "slen":
        return lambda c: _h(c.seed, "slen", a[0].id) % 7
    if o == "fv":
        f = _any(a[0])
        return lambda c: c.init(("fv", f(c), a[1]))
    if o == "input":
        return lambda c: c.assign[t] if t in c.assign else c.init(("input", a[0]))
    if o == "vm":
        return _raise("version")

    def g(c):
        if t in c.assign:
            return c.assign[t]
        raise Unknown("term " + o)
    return g


def _any2(x):
    if x.op in ("ptr", "addr", "null", "alloc", "vdata"):
        return cptr(x)
    return cnum(x)


_hts = {}


def height_of(b):
    """index of the variable bound by a quantifier with this body (see terms.quant)"""
    v = _hts.get(b)
    if v is None:
        h = 0
        for x in walk(b):
            if x.op in ("bv", "self"):
                h = max(h, x.a[0] + 1)
        v = _hts[b] = h - 1
    return v


# ----------------------------------------------------------------- replay ---

_rd = {}


def _place(lv):
    return lv.a[0] if lv.op == "el" else lv


def _reads(e):
    """loads of an effect that refer to a version of memory other than the initial one"""
    out = set()
    todo = list(e.pc) + list(e.d.values())
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, Term):
            r = _rd.get(x)
            if r is None:
                r = _rd[x] = frozenset(y for y in walk(x) if y.op == "ld" and len(y.a) > 1 and y.a[1] != ()
                                          and not contains(y.a[0], lambda z: z.op in ("bv", "self")))
            out |= r
    return out


class Play:
    """evaluates a summary's effects, in program order, at one point"""

    def __init__(self, effects, kinds=("store",)):
        self.effects = [e for e in effects if e.kind in kinds or e.kind == "havoc"]
        # values read before a store of the same block and used after it
        uses, self.pre = {}, {}
        for j, e in enumerate(self.effects):
            for x in _reads(e):
                uses.setdefault((_place(x.a[0]), x.a[1]), []).append((j, x))
        for i, e in enumerate(self.effects):
            if e.kind == "store" and e.ver is not None and e.ver != ():
                n = len(e.loops)
                v = {x for j, x in uses.get((_place(e.d["lv"]), e.ver), ()) if j > i and len(self.effects[j].loops) >= n and all(a is b for a, b in zip(e.loops, self.effects[j].loops))}
                if v:
                    self.pre[i] = v
        self.at = {id(e): i for i, e in enumerate(self.effects)}

    def run(self, c, on=None):
        self.on = on
        self.block(self.effects, 0, c)

    def block(self, effs, d, c):
        i, n = 0, len(effs)
        while i < n:
            e = effs[i]
            if len(e.loops) > d:
                L = e.loops[d]
                j = i
                while j < n and len(effs[j].loops) > d and effs[j].loops[d] is L:
                    j += 1
                N = asint(cnum(L.n)(c))
                c.steps += max(N, 0)
                if c.steps > c.limit:
                    raise Unknown("too large")
                blk = effs[i:j]
                old = c.k.get(L.k)
                for it in range(N):
                    c.k[L.k] = it
                    before = set(c.saved)
                    self.block(blk, d + 1, c)
                    for x in [x for x in c.saved if x not in before]:
                        del c.saved[x]
                    if L.early is not F and cnum(L.early)(c):
                        break
                if old is None:
                    c.k.pop(L.k, None)
                else:
                    c.k[L.k] = old
                i = j
                continue
            self.one(e, c)
            i += 1

    def one(self, e, c):
        for p in e.pc:
            if not cnum(p)(c):
                return
        if e.kind == "havoc":
            raise Unknown("memory changed by %s" % e.d["q"])
        if e.kind == "store":
            k = cloc(e.d["lv"])(c)
            v = e.d["val"]
            if v.op in NONNUM or v.op == "vdata" or (v.op == "ld" and e.d.get("ptrval")):
                try:
                    x = cptr(v)(c)
                except Unknown:
                    x = ("unk",)
            else:
                try:
                    x = cnum(v)(c)
                except Unknown as u:
                    x = u
            if isinstance(x, Unknown):
                # poison, so that only consumers of the value become undecided
                x = Poison(str(x))
            for t in self.pre.get(self.at[id(e)], ()):
                # a later term with an older version means the value from before this store
                if t not in c.saved:
                    try:
                        q = k if t.a[0] is e.d["lv"] else cloc(t.a[0])(c)
                        c.saved[t] = c.mem.get(q, c.init(q))
                    except (Unknown, KeyError):
                        pass
            c.mem[k] = x
            c.steps += 1
            if c.steps > c.limit:
                raise Unknown("too large")
        if self.on:
            self.on(e, c)


def at_points(effects, points, fn, kinds, assume=(), seed=1, want=6, tries=300, ints=(), terms=(), initmem=None):
    """walk the executed effects of a summary at admissible points.  fn(trace, c) -> None or a
    witness dict; trace: [(effect, value of evaluate(effect))].  -> Verdict"""
    ai, _ = int_atoms(effects, terms)
    ai = {x for x in ai} | set(ints)
    rng = random.Random(seed)
    done, unknown, undec = 0, None, 0
    P = Play(effects, kinds)
    for _ in range(tries):
        if done >= want or undec > 2 * want + 20:
            break
        asg = dict(points(rng))
        for x in sorted(ai, key=lambda y: y.id):
            if x not in asg:
                asg[x] = rng.randint(1, 3)
        c = Ctx(asg, rng.randint(0, 1 << 30), initmem=initmem)
        try:
            if not all(cnum(g)(c) for g in assume):
                continue
            r = fn(P, c)
            if r is not None:
                w = {"point": {show(a): v for a, v in asg.items()}}
                w.update(r)
                return Verdict("different", r.get("what"), w)
            done += 1
        except Unknown as e:
            unknown = str(e)
            undec += 1
    if done >= max(1, want // 2) and undec <= done:
        return Verdict("equal", "identity test", points=done)
    return Verdict("undecided", "%s (at %d of %d points)" % (unknown, undec, undec + done) if unknown else "no admissible point", points=done)


class Poison(float):
    def __new__(cls, why):
        o = float.__new__(cls, "nan")
        o.why = why
        return o


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


# ------------------------------------------------- integer-position atoms ---

def int_atoms(effects, extra=()):
    """opaque scalars that are used as counts, indices or divisors; and regions
    whose elements are"""
    seen = set()
    out, regs = set(), set()

    def integral(t):
        """subterms whose values count as integers: not what a strict comparison of values looks at"""
        todo, known = [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, Term) and x not in known and x.op != "gt0":
                known.add(x)
                yield x
                todo.extend(x.a)

    def scan_int(t):
        for x in integral(t):
            if x.op in ("ld", "sym", "call", "input"):
                if x.op == "ld" and x.a[0].op == "el":
                    regs.add(x.a[0].a[0])
                elif x.op == "call" and len(x.a) > 1 and x.a[0] == "pure" and str(x.a[1]).startswith("any "):
                    pass        # a function of its arguments
                else:
                    out.add(x)

    def scan(t):
        for x in walk(t, seen):
            if x.op == "el":
                scan_int(x.a[1])
            elif x.op == "ptr":
                scan_int(x.a[1])
            elif x.op in ("idiv", "imod"):
                scan_int(x.a[0])
                scan_int(x.a[1])
            elif x.op == "ge0":
                scan_int(x.a[0])
            elif x.op in ("sum", "prod", "redmax", "redmin", "ex", "first", "jmu"):
                scan_int(x.a[0])
    for e in effects:
        for l in e.loops:
            if l.n is not None:
                scan_int(l.n)
                scan(l.n)
            scan(l.early)
        for p in e.pc:
            scan(p)
        for v in e.d.values():
            if isinstance(v, Term):
                scan(v)
    for t in extra:
        scan(t)
    out = {x for x in out if not (x.op == "sym" and x.a[0].startswith(("k#", "this")))}
    return out, regs


# ------------------------------------------------------------ normal form ---

def _loops_used(e):
    return [l for l in e.loops]


def match_store(a, b):
    """is store effect a the same as b up to the loop variables and their order?"""
    la, lb = list(a.loops), list(b.loops)
    # loops of one iteration or loops nothing depends on are irrelevant for a plain overwrite
    if len(la) != len(lb):
        return False
    if any(l.early is not F for l in la + lb):
        same_early = True
    n = len(la)
    if n > 6:
        return False

    def inst(e, order):
        return order

    def rec(i, m, used):
        if i == n:
            if subst(a.d["lv"], m) is not b.d["lv"]:
                return False
            if subst(a.d["val"], m) is not b.d["val"]:
                return False
            if and_(*[subst(p, m) for p in a.pc]) is not and_(*b.pc):
                return False
            for x, y in zip(la, [used[j] for j in range(n)]):
                if subst(x.early, m) is not y.early:
                    return False
            return True
        for l in lb:
            if l in used:
                continue
            m2 = dict(m)
            m2[la[i].k] = l.k
            if subst(la[i].n, m2) is not l.n:
                continue
            if rec(i + 1, m2, used + [l]):
                return True
        return False
    return rec(0, {}, [])


def nf_equal(A, B):
    """canonical forms of two store sequences coincide (as multisets per region, order within a region kept)"""
    if len(A) != len(B):
        return False

    def byreg(es):
        d = {}
        for e in es:
            lv = e.d["lv"]
            d.setdefault(lv.a[0] if lv.op == "el" else lv, []).append(e)
        return d
    a, b = byreg(A), byreg(B)
    if set(a) != set(b):
        return False
    for r in a:
        if len(a[r]) != len(b[r]):
            return False
        for x, y in zip(a[r], b[r]):
            if not match_store(x, y):
                return False
    return True


# ------------------------------------------------------------- comparison ---

class Verdict:
    def __init__(self, kind, detail=None, witness=None, points=0):
        self.kind, self.detail, self.witness, self.points = kind, detail, witness, points

    def __repr__(self):
        return "%s %s %s" % (self.kind, self.detail or "", self.witness or "")


def region_effects(effects, regions):
    return [e for e in effects if e.kind == "store" and any(r in roots_of(e.d["lv"]) for r in regions)]


def roots_of(lv):
    out = set()
    x = lv
    while True:
        out.add(x)
        if x.op in ("fld", "arr", "el", "addr", "vdata"):
            x = x.a[0]
        elif x.op == "ptr":
            x = x.a[0]
        elif x.op == "ite":
            for y in x.a[1:]:
                out |= roots_of(y)
            return out
        else:
            return out


def equiv(impl, spec, regions, points, assume=(), seed=1, introots_terms=(), intrange=None, want=4, scalars=(),
          tries=400, prelude=(), initmem=None, styles=(None,)):
    """impl/spec: effect lists; regions: pointer terms whose final contents must agree.
    points: callable(rng) -> {atom: value}; assume: guards that must hold at the point;
    scalars: [(impl term, spec term)] values that must agree as well."""
    ri = region_effects(impl, regions)
    rs = region_effects(spec, regions)
    if nf_equal(ri, rs) and all(a is b for a, b in scalars):
        return Verdict("equal", "normal form")
    ai, regs = int_atoms(list(prelude) + list(impl))
    as_, regs2 = int_atoms(spec)
    rng = random.Random(seed)
    pi, ps, pp = Play(impl), Play(spec), Play(prelude)
    done = undec = 0
    unknown = None
    for t in range(tries):
        if done >= want or undec > 2 * want + 20:
            break
        asg = dict(points(rng))
        for x in sorted(ai | as_, key=lambda y: y.id):
            if x not in asg:
                asg[x] = rng.randint(1, 3)
        s = rng.randint(0, 1 << 30)
        base = Ctx(asg, s, initmem=initmem)
        try:
            if not all(cnum(g)(base) for g in assume):
                continue
        except Unknown as e:
            unknown = "assumption: %s" % e
            continue
        try:
            introots = set()
            for r in set(regs) | set(regs2) | set(introots_terms):
                try:
                    introots.add(cptr(r)(base)[0])
                except Unknown:
                    pass
            rng_map = {}
            for r, n in (intrange or {}).items():
                rng_map[cptr(r)(base)[0]] = asint(cnum(n)(base)) if isinstance(n, Term) else n
            ci = Ctx(asg, s, introots, rng_map, initmem)
            cs = Ctx(asg, s, introots, rng_map, initmem)
            ci.style = cs.style = styles[t % len(styles)]
            if prelude:
                pp.run(ci)
                pp.run(cs)
            pi.run(ci)
            ps.run(cs)
            for r in regions:
                k = cptr(r)(base)[0]
                ki = {loc: v for loc, v in ci.mem.items() if loc[0] == "el" and loc[1] == k or k == ("&", loc) or _under(loc, k)}
                ks = {loc: v for loc, v in cs.mem.items() if loc[0] == "el" and loc[1] == k or k == ("&", loc) or _under(loc, k)}
                for loc in sorted(set(ki) | set(ks), key=repr):
                    x = ki.get(loc)
                    y = ks.get(loc)
                    if x is None:
                        x = ci.init(loc)
                    if y is None:
                        y = cs.init(loc)
                    if isinstance(x, Poison) or isinstance(y, Poison):
                        raise Unknown("value of %s: %s" % (loc, getattr(x, "why", None) or getattr(y, "why", None)))
                    if not same(x, y):
                        return Verdict("different", None, {
                            "point": {show(a): v for a, v in asg.items()},
                            "location": repr(loc[-1] if loc[0] == "el" else loc),
                            "region": show(r)[:200],
                            "implementation": repr(x), "required": repr(y)})
            for a, b in scalars:
                x, y = cnum(a)(ci), cnum(b)(cs)
                if not same(x, y):
                    return Verdict("different", None, {
                        "point": {show(z): v for z, v in asg.items()},
                        "value": show(a)[:300], "implementation": repr(x), "required": repr(y)})
            done += 1
        except Unknown as e:
            unknown = str(e)
            undec += 1
            continue
    if done >= max(1, want // 2) and undec <= done:
        return Verdict("equal", "identity test", points=done)
    return Verdict("undecided", "%s (at %d of %d points)" % (unknown, undec, undec + done) if unknown else "no admissible point", points=done)


def _under(loc, k):
    while isinstance(loc, tuple) and loc and loc[0] in ("fld", "arr", "el"):
        if loc[0] == "el":
            return loc[1] == k
        loc = loc[1]
    return False


def values_agree(pairs, points, assume=(), seed=1, want=6, tries=300):
    """identity test of scalar terms: [(a, b)]"""
    if all(a is b for a, b in pairs):
        return Verdict("equal", "normal form")
    rng = random.Random(seed)
    done, unknown, undec = 0, None, 0
    for t in range(tries):
        if done >= want or undec > 2 * want + 20:
            break
        asg = dict(points(rng))
        c = Ctx(asg, rng.randint(0, 1 << 30))
        try:
            if not all(cnum(g)(c) for g in assume):
                continue
            for a, b in pairs:
                x, y = cnum(a)(c), cnum(b)(c)
                if not same(x, y):
                    return Verdict("different", None, {"point": {show(z): v for z, v in asg.items()},
                                                       "value": show(a)[:300], "required form": show(b)[:300],
                                                       "implementation": repr(x), "required": repr(y)})
            done += 1
        except Unknown as e:
            unknown = str(e)
            undec += 1
    if done >= max(1, want // 2) and undec <= done:
        return Verdict("equal", "identity test", points=done)
    return Verdict("undecided", "%s (at %d of %d points)" % (unknown, undec, undec + done) if unknown else "no admissible point")


def pointers_agree(p, q, points, assume=(), seed=1, want=6, tries=300):
    if p is q:
        return Verdict("equal", "normal form")
    rng = random.Random(seed)
    done, unknown, undec = 0, None, 0
    for _ in range(tries):
        if done >= want or undec > 2 * want + 20:
            break
        asg = dict(points(rng))
        c = Ctx(asg, rng.randint(0, 1 << 30))
        try:
            if not all(cnum(g)(c) for g in assume):
                continue
            a, b = cptr(p)(c), cptr(q)(c)
            if a != b:
                return Verdict("different", None, {"point": {show(z): v for z, v in asg.items()}, "value": show(p)[:200],
                                                   "implementation": repr(a), "required": repr(b)})
            done += 1
        except Unknown as e:
            unknown = str(e)
            undec += 1
    if done >= max(1, want // 2) and undec <= done:
        return Verdict("equal", "identity test", points=done)
    return Verdict("undecided", "%s (at %d of %d points)" % (unknown, undec, undec + done) if unknown else "no admissible point")
